"""Contracts on the library's functions.

A contract is attached to a function by its qualified name and parameter
types. `pre` is required of callers, `post` is what the body must establish for
every exit; the tags of a postcondition name the properties it belongs to.
"""
from . import terms as t
from .values import *
from .astdb import base_name, _strip, short

POS, NEG, NAN, PINF, NINF = 0, 1, 2, 3, 4
BASES = {'lowp': 1 << 8, 'medp': 1 << 16, 'highp': 1 << 32, 'base2': 2, 'base8': 8, 'base10': 10, 'base16': 16}


def digit_base(et):
    """(base, name, bit width) of a digit type"""
    if et['k'] == 'int' and not et['s']:
        n = {8: 'lowp', 16: 'medp', 32: 'highp'}.get(et['w'])
        if n:
            return 1 << et['w'], n, et['w']
    if et['k'] == 'rec' and et['b'] == 'BNIntType':
        m = et['n'].rsplit(',', 1)[1].strip(' >')
        w = {'BN_UINT8': 8, 'BN_UINT16': 16, 'BN_UINT32': 32, 'BN_UINT64': 64}.get(et['n'].split('<')[1].split(',')[0])
        if m.isdigit() and w:
            return int(m), {2: 'base2', 8: 'base8', 10: 'base10', 16: 'base16'}.get(int(m), 'base' + m), w
    return None


def vec_et(ty):
    """element type if ty is (a reference to) a vector"""
    if ty['k'] == 'ref':
        ty = ty['t']
    if ty['k'] == 'rec' and ty['b'] == 'std::vector':
        return ty['a'][0]
    return None


def fn_base(db, fn):
    """base of the number type a function works on"""
    cands = [p['t'] for p in fn['params']]
    cls = fn.get('cls')
    if cls and cls.get('b') == 'Bignum':
        cands.insert(0, cls)
    for ty in cands:
        if ty['k'] == 'ref':
            ty = ty['t']
        et = vec_et(ty)
        if et is None and ty.get('k', 'rec') == 'rec' and ty.get('b') == 'Bignum':
            r = db.records.get(ty['n'])
            for f in (r or {}).get('f', []):
                et = et or vec_et(f['t'])
        if et is not None:
            d = digit_base(et)
            if d:
                return d
    return None


# --------------------------------------------------------------- predicates

def DA(v):
    """the digit array of a vector of digits"""
    if len(v.arrs) != 1:
        raise Refuse('digit vector expected')
    return v.arr()


def VAL(v):
    return t.V(DA(v), v.size)


def VALID(v):
    return t.valid(DA(v), v.size)


def CANON(v):
    """no most significant zero: size = 0 or B^(size-1) <= value"""
    return t.or_(t.le(v.size, t.ZERO), t.le(t.pow_(t.addn(v.size, -1)), VAL(v)))


def num(v):
    return t.num(v)


def DESC(x):
    return x.f['descriptor']


def DIG(x):
    return x.f['numData']


def SPECIAL(x):
    return t.ge(DESC(x), num(NAN))


def ISINF(x):
    return t.ge(DESC(x), num(PINF))


def POSITIVE(x):
    return t.or_(t.eq(DESC(x), num(POS)), t.eq(DESC(x), num(PINF)))


def ISNEG(x):
    return t.eq(DESC(x), num(NEG))


def MAG(x):
    return VAL(DIG(x))


def SV(x):
    """signed value of a finite number"""
    return t.ite(ISNEG(x), t.neg(MAG(x)), MAG(x))


def FIN(x):
    return t.le(DESC(x), num(NEG))


def WF(x):
    """well formed finite number"""
    return t.and_(FIN(x), VALID(DIG(x)), CANON(DIG(x)), t.or_(t.eq(DESC(x), num(POS)), t.ge(DIG(x).size, t.ONE)))


def OPERAND(x):
    """what operators accept: a well formed finite number, or an infinity / NaN without digits"""
    return t.or_(WF(x), t.and_(SPECIAL(x), t.eq(DIG(x).size, t.ZERO)))


def NODIGITS(x):
    return t.eq(DIG(x).size, t.ZERO)


def SAME(a, b):
    """same observable value (sizes and elements below the size)"""
    if isinstance(a, t.T):
        return t.eq(a, b)
    if isinstance(a, RecV):
        return t.and_(*[SAME(a.f[k], b.f[k]) for k in a.f])
    if isinstance(a, VecV):
        out = [t.eq(a.size, b.size)]
        for k in a.arrs:
            if a.arrs[k] is not b.arrs[k]:
                out.append(t.aeqn(a.arrs[k], b.arrs[k], a.size))
        return t.and_(*out)
    raise Refuse('SAME')


# ----------------------------------------------------------------- contexts

class CallCtx:
    def __init__(self, ex, spec, fn, objs, alias):
        self.ex, self.spec, self.fn, self.objs, self.alias = ex, spec, fn, objs, alias
        self.ret = None

    def _vals(self, st):
        out = []
        for o in self.objs:
            if isinstance(o, Loc):
                v = st.store.get(o.cell)
                if isinstance(v, RecV) and not v.f:
                    out.append(None)          # object under construction
                else:
                    out.append(self.ex.load(st, o))
            else:
                out.append(o)
        return out

    def enter(self, st):
        self.st0 = st
        self.old = self._vals(st)

    def leave(self, st, ret):
        self.st1 = st
        self.new = self._vals(st)
        self.ret = ret
        if isinstance(ret, Loc):
            self.retv = self.ex.load(st, ret)
        else:
            self.retv = ret


class Spec:
    inline = False
    optional = False
    may_alloc = False
    throws = None
    assumed = False     # body not verified against it
    concrete = None
    mods = ()           # indices of modified objects (0 = this for members)
    alias_sets = ('',)
    tags = ()           # properties
    frame_tags = ('C07',)   # properties that say the other operands are unchanged
    ref_tags = ('C07',)     # ... that say which object a returned reference denotes
    self_tags = ()          # ... about one object as both operands
    props = ()          # all properties with an obligation here

    def __init__(self, name, fn=None):
        self.name = name
        self.fn = fn

    def pre(self, c):
        return []

    def post(self, c):
        return []

    def post_exc(self, c):
        """postconditions after an exception"""
        return []

    def modifies(self, c):
        return [c.objs[i] for i in self.mods]

    def measure(self, c):
        return None

    def given(self, c, st):
        """assumed (unproved) facts about the result: (assumption, fact)"""
        return []

    def result(self, c, st):
        rt = c.fn.get('rt')
        if rt is None or rt['k'] == 'void':
            return None
        if rt['k'] == 'ref':
            return self.ref_result(c)
        return c.ex.fresh_val(rt, 'r')

    def ref_result(self, c):
        return c.objs[0]

    def alias_of(self, objs):
        """'01' when object 0 and 1 are the same object"""
        locs = [o for o in objs if isinstance(o, Loc)]
        if len(objs) >= 2 and isinstance(objs[0], Loc) and isinstance(objs[1], Loc) and objs[0] == objs[1]:
            if '01' not in self.alias_sets:
                raise Refuse('aliased arguments of %s' % self.name)
            return '01'
        return ''


class MagCmp(Spec):
    """abs_val_is_XX(num1, num2)"""
    frame_tags = ('C05',)
    props = ('C05', 'C10')
    alias_sets = ('', '01')

    def __init__(self, name, op):
        Spec.__init__(self, name)
        self.op = op

    def pre(self, c):
        a, b = c.old
        r = [('digits of the first below the base', VALID(a)), ('digits of the second below the base', VALID(b))]
        r += [('no leading zeroes in the first', CANON(a)), ('no leading zeroes in the second', CANON(b))]
        return r

    def post(self, c):
        a, b = c.old
        rel = {'eq': t.eq, 'gt': t.gt, 'ge': t.ge, 'lt': t.lt, 'le': t.le}[self.op](VAL(a), VAL(b))
        return [(('C05',), 'result is the relation of the values', t.iff(c.ret, rel))]


class AbsAdd(Spec):
    props = ('C01', 'C02', 'C06', 'C07', 'C10', 'C15')
    mods = (0,)
    may_alloc = True
    alias_sets = ('', '01')

    def pre(self, c):
        a, b = c.old
        return [('digits below the base', t.and_(VALID(a), VALID(b)))]

    def post(self, c):
        a, b = c.old
        n = c.new[0]
        mx = t.max2(a.size, b.size)
        return [(('C01', 'C02'), 'value is the sum', t.eq(VAL(n), t.add(VAL(a), VAL(b)))),
                (('C06',), 'digits below the base', VALID(n)),
                (('C06',), 'not fewer digits than the longer operand', t.le(mx, n.size)),
                (('C06',), 'at most one digit more', t.le(n.size, t.addn(mx, 1))),
                (('C06',), 'the extra digit is not zero', t.or_(t.le(n.size, mx), t.le(t.pow_(mx), VAL(n))))]


class AbsSub(Spec):
    props = ('C01', 'C02', 'C06', 'C07', 'C10', 'C15')
    mods = (0,)
    alias_sets = ('', '01')

    def pre(self, c):
        a, b = c.old
        return [('digits below the base', t.and_(VALID(a), VALID(b))),
                ('the first number has at least as many digits', t.le(b.size, a.size)),
                ('the first number is not the smaller one', t.le(VAL(b), VAL(a)))]

    def post(self, c):
        a, b = c.old
        n = c.new[0]
        return [(('C01', 'C02'), 'value is the difference', t.eq(VAL(n), t.sub(VAL(a), VAL(b)))),
                (('C06',), 'digits below the base', VALID(n)),
                (('C06',), 'no leading zeroes', CANON(n))]


class AbsDiv(Spec):
    props = ('C04', 'C06', 'C07', 'C10', 'C15')
    mods = (0,)
    may_alloc = True

    def pre(self, c):
        a, b = c.old
        return [('digits below the base', t.and_(VALID(a), VALID(b))),
                ('no leading zeroes', t.and_(CANON(a), CANON(b))),
                ('divisor not zero', t.ge(VAL(b), t.ONE))]

    def post(self, c):
        a, b = c.old
        n = c.new[0]
        qd = t.mul(VAL(n), VAL(b))
        return [(('C04',), 'quotient times divisor does not exceed the dividend', t.le(qd, VAL(a))),
                (('C04',), 'remainder below the divisor', t.lt(VAL(a), t.add(qd, VAL(b)))),
                (('C06',), 'digits below the base', VALID(n)),
                (('C06',), 'no leading zeroes, or the single digit 0', t.or_(CANON(n), t.and_(t.eq(n.size, t.ONE), t.eq(VAL(n), t.ZERO))))]


class AbsMul(Spec):
    props = ('C03', 'C06', 'C07', 'C10', 'C15')
    may_alloc = True
    alias_sets = ('', '01')

    def pre(self, c):
        a, b = c.old
        return [('digits below the base', t.and_(VALID(a), VALID(b)))]

    def post(self, c):
        a, b = c.old
        r = c.ret
        return [(('C03',), 'value is the product', t.eq(VAL(r), t.mul(VAL(a), VAL(b)))),
                (('C06',), 'digits below the base', VALID(r)),
                (('C06',), 'no leading zeroes', CANON(r))]


class Double(Spec):
    """optional contract of a local helper f(digits&): the digits are doubled in place. Used at call sites only where
    the helper's body has been verified against it; otherwise the helper is inlined."""
    props = ('C04', 'C06', 'C10')
    mods = (0,)
    may_alloc = True
    optional = True

    def pre(self, c):
        return [('digits below the base', VALID(c.old[0]))]

    def post(self, c):
        a, n = c.old[0], c.new[0]
        return [(('C04',), 'value is doubled', t.eq(VAL(n), t.scale(VAL(a), 2))),
                (('C06',), 'digits below the base', VALID(n)),
                (('C06',), 'at least as many digits', t.le(a.size, n.size)),
                (('C06',), 'no leading zeroes', t.imp(CANON(a), CANON(n)))]


# -------------------------------------------------------------- Bignum

def arith_post(op, a, b, n, tagc):
    """the result number n of a op b"""
    da, db, dn = DESC(a), DESC(b), DESC(n)
    fin = t.and_(FIN(a), FIN(b))
    posts = []
    if op != '/':
        rel = {'+': lambda: t.eq(SV(n), t.add(SV(a), SV(b))), '-': lambda: t.eq(SV(n), t.sub(SV(a), SV(b))),
               '*': lambda: t.eq(SV(n), t.ite(t.iff(ISNEG(a), ISNEG(b)), t.mul(MAG(a), MAG(b)), t.neg(t.mul(MAG(a), MAG(b)))))}[op]()
        posts.append(((tagc,), 'the value is the exact %s' % {'+': 'sum', '-': 'difference', '*': 'product'}[op], t.imp(fin, rel)))
        posts.append((('C06',), 'the result is well formed', t.imp(fin, WF(n))))
    else:
        bz = t.eq(MAG(b), t.ZERO)
        q = MAG(n)
        qd = t.mul(q, MAG(b))
        nz = t.and_(fin, t.not_(bz))
        posts.append(((tagc,), 'quotient times divisor does not exceed the dividend', t.imp(nz, t.le(qd, MAG(a)))))
        posts.append(((tagc,), 'the remainder is below the divisor', t.imp(nz, t.lt(MAG(a), t.add(qd, MAG(b))))))
        posts.append(((tagc,), 'the sign is that of the quotient', t.imp(nz, t.eq(dn, t.ite(t.and_(t.not_(t.iff(ISNEG(a), ISNEG(b))), t.ge(q, t.ONE)), num(NEG), num(POS))))))
        posts.append((('C06',), 'the result is well formed', t.imp(nz, WF(n))))
        posts.append(((tagc, 'C06'), 'dividing by zero gives an infinity without digits', t.imp(t.and_(fin, bz), t.and_(NODIGITS(n), t.eq(dn, t.ite(ISNEG(a), num(NINF), num(PINF)))))))
    # infinities and NaN
    nan = t.or_(t.eq(da, num(NAN)), t.eq(db, num(NAN)))
    ia, ib = ISINF(a), ISINF(b)
    pa, pb = POSITIVE(a), POSITIVE(b)
    az, bz = t.and_(FIN(a), t.eq(DIG(a).size, t.ZERO)), t.and_(FIN(b), t.eq(DIG(b).size, t.ZERO))
    inf = lambda pos: t.ite(pos, num(PINF), num(NINF))
    same = t.iff(pa, pb)
    if op == '+':
        r = t.ite(t.and_(ia, ib), t.ite(t.eq(da, db), da, num(NAN)), t.ite(ia, da, db))
    elif op == '-':
        r = t.ite(t.and_(ia, ib), t.ite(t.eq(da, db), num(NAN), da), t.ite(ia, da, inf(t.not_(pb))))
    elif op == '*':
        r = t.ite(t.or_(az, bz), num(NAN), inf(same))
    else:
        r = t.ite(t.and_(ia, ib), num(NAN), t.ite(ia, inf(same), num(POS)))
    r = t.ite(nan, num(NAN), r)
    sp = t.not_(fin)
    posts.append((('C08',), 'the descriptor follows the rules for infinities and NaN', t.imp(sp, t.eq(dn, r))))
    posts.append((('C08',), 'an infinite or NaN operand leaves no digits', t.imp(sp, NODIGITS(n))))
    return posts


class Compound(Spec):
    props = ('C06', 'C07', 'C08', 'C10', 'C15')
    self_tags = ('C07',)
    mods = (0,)
    may_alloc = True
    alias_sets = ('', '01')

    def __init__(self, name, op, tagc):
        Spec.__init__(self, name)
        self.op, self.tagc = op, tagc

    def pre(self, c):
        a, b = c.old
        return [('the left operand is a number, infinity or NaN', OPERAND(a)), ('the right operand is a number, infinity or NaN', OPERAND(b))]

    def post(self, c):
        a, b = c.old
        return arith_post(self.op, a, b, c.new[0], self.tagc)

    def post_exc(self, c):
        n = c.new[0]
        return [(('C15',), 'the left operand is an infinity', ISINF(n)), (('C15',), 'the left operand has no digits', NODIGITS(n))]


class Binary(Spec):
    props = ('C06', 'C07', 'C08', 'C10', 'C15')
    self_tags = ('C07',)
    may_alloc = True
    alias_sets = ('', '01')

    def __init__(self, name, op, tagc):
        Spec.__init__(self, name)
        self.op, self.tagc = op, tagc

    def pre(self, c):
        a, b = c.old
        return [('the left operand is a number, infinity or NaN', OPERAND(a)), ('the right operand is a number, infinity or NaN', OPERAND(b))]

    def post(self, c):
        a, b = c.old
        return arith_post(self.op, a, b, c.retv, self.tagc)


class Rel(Spec):
    frame_tags = ('C05', 'C09')
    props = ('C05', 'C09', 'C10')
    alias_sets = ('', '01')

    def __init__(self, name, op):
        Spec.__init__(self, name)
        self.op = op

    def pre(self, c):
        a, b = c.old
        return [('the left operand is a number, infinity or NaN', OPERAND(a)), ('the right operand is a number, infinity or NaN', OPERAND(b))]

    def post(self, c):
        a, b = c.old
        op = self.op
        fin = t.and_(FIN(a), FIN(b))
        f = {'==': t.eq, '!=': t.ne, '<': t.lt, '<=': t.le, '>': t.gt, '>=': t.ge}[op]
        out = [(('C05',), 'finite numbers compare like their values', t.imp(fin, t.iff(c.ret, f(SV(a), SV(b)))))]
        da, db = DESC(a), DESC(b)
        nan = t.or_(t.eq(da, num(NAN)), t.eq(db, num(NAN)))
        rank = lambda d: t.ite(t.eq(d, num(PINF)), t.ONE, t.ite(t.eq(d, num(NINF)), num(-1), t.ZERO))
        special = t.not_(fin)
        if op in ('<', '<=', '>', '>='):
            out.append((('C09',), 'NaN is unordered', t.imp(nan, t.not_(c.ret))))
        out.append((('C09',), 'infinities bound all numbers', t.imp(t.and_(special, t.not_(nan)), t.iff(c.ret, f(rank(da), rank(db))))))
        return out


class Ctor(Spec):
    """Bignum(desc, digits)"""
    frame_tags = ('C11',)
    props = ('C06', 'C10', 'C11')
    mods = (0,)
    may_alloc = True

    def _list(self, c, st):
        return c.ex.load(st, c.objs[2].loc)

    def pre(self, c):
        l = self._list(c, c.st0)
        return [('the sign is finite', t.le(c.old[1], num(NEG))), ('digits below the base', VALID(l)), ('any list', t.ge(l.size, t.ZERO))]

    def modifies(self, c):
        return []

    def result(self, c, st):
        rec = c.ex.db.records[c.fn['cls']['n']]
        c.ex.save(st, c.objs[0], RecV(c.fn['cls']['n'], {f['n']: c.ex.fresh_val(f['t'], 'n.' + f['n']) for f in rec['f']}))
        return None

    def post(self, c):
        n = c.new[0]
        l = self._list(c, c.st0)
        rv = t.R(DA(l), l.size)
        return [(('C11',), 'the magnitude is the value of the list', t.eq(MAG(n), rv)),
                (('C11',), 'the sign is the given one, zero is positive', t.eq(DESC(n), t.ite(t.eq(rv, t.ZERO), num(POS), c.old[1]))),
                (('C06', 'C11'), 'the number is well formed', WF(n))]


class DefaultCtor(Spec):
    props = ('C06', 'C10', 'C11')
    mods = (0,)

    def modifies(self, c):
        return []

    result = Ctor.result

    def post(self, c):
        n = c.new[0]
        return [(('C11', 'C06'), 'a new number is zero', t.and_(t.eq(DESC(n), num(POS)), NODIGITS(n)))]


class CopyCtor(Spec):
    frame_tags = ('C16',)
    props = ('C10', 'C16')
    mods = (0,)
    may_alloc = True

    def __init__(self, name, move):
        Spec.__init__(self, name)
        self.move = move
        self.may_alloc = not move

    def modifies(self, c):
        return [c.objs[1]] if self.move else []

    result = Ctor.result

    def post(self, c):
        return [(('C16',), 'the new number has the descriptor and digits of the source', SAME(c.old[1], c.new[0]))]


class Assign(Spec):
    frame_tags = ref_tags = ('C16',)
    props = ('C10', 'C16')
    alias_sets = ('', '01')

    def __init__(self, name, move):
        Spec.__init__(self, name)
        self.move = move
        self.mods = (0, 1) if move else (0,)
        self.may_alloc = not move
        if move:
            self.alias_sets = ('',)

    def alias_of(self, objs):
        a = len(objs) >= 2 and objs[0] == objs[1]
        if a and self.move:
            raise Refuse('self-move')
        return '01' if a else ''

    def post(self, c):
        return [(('C16',), 'the target has the descriptor and digits of the source', SAME(c.old[1], c.new[0]))]


class Pred(Spec):
    """simple observers of a number"""
    frame_tags = ref_tags = ('C13',)
    props = ('C10', 'C13')

    def __init__(self, name, f, tags=('C13',)):
        Spec.__init__(self, name)
        self.f, self._tags = f, tags

    def post(self, c):
        v = self.f(*c.old)
        r = c.retv
        return [(self._tags, 'reports the current state', SAME(v, r))]


class GetData(Pred):
    def ref_result(self, c):
        return c.objs[0].f('numData')


class Edit(Spec):
    """digit editing: f(old this, args) -> required properties, via an arbitrary index"""
    frame_tags = ('C13',)
    props = ('C10', 'C13')
    mods = (0,)

    def __init__(self, name, kind, alloc):
        Spec.__init__(self, name)
        self.kind, self.may_alloc = kind, alloc

    def pos(self, c):
        o = DIG(c.old[0])
        k = self.kind
        if k in ('push_front', 'pop_front'):
            return t.ZERO
        if k == 'push_back':
            return o.size
        if k == 'pop_back':
            return t.addn(o.size, -1)
        return c.old[2] if k == 'push' else c.old[1]

    def pre(self, c):
        o = DIG(c.old[0])
        k = self.kind
        if k in ('pop_front', 'pop_back'):
            return [('there is a digit', t.ge(o.size, t.ONE))]
        if k == 'push':
            return [('position within the number', t.le(c.old[2], o.size))]
        if k == 'pop':
            return [('position within the number', t.lt(c.old[1], o.size))]
        return []

    def post(self, c):
        o, n = DIG(c.old[0]), DIG(c.new[0])
        k = self.kind
        if len(o.arrs) != 1:
            raise Refuse('digits')
        j = t.sym('index', 0, 1 << 56)
        out = [(('C13',), 'the descriptor is unchanged', t.eq(DESC(c.old[0]), DESC(c.new[0])))]
        oa, na = DA(o), DA(n)
        inr = t.lt(j, n.size)
        if k.startswith('push'):
            d = c.old[1]
            d = d if isinstance(d, t.T) else next(iter(d.f.values()))
            p = self.pos(c)
            want = t.ite(t.lt(j, p), t.sel(oa, j), t.ite(t.eq(j, p), d, t.sel(oa, t.addn(j, -1))))
            out.append((('C13',), 'one digit more', t.eq(n.size, t.addn(o.size, 1))))
        elif k.startswith('pop'):
            p = self.pos(c)
            want = t.ite(t.lt(j, p), t.sel(oa, j), t.sel(oa, t.addn(j, 1)))
            out.append((('C13',), 'one digit less', t.eq(n.size, t.addn(o.size, -1))))
        elif k == 'resize':
            d = c.old[2]
            d = d if isinstance(d, t.T) else next(iter(d.f.values()))
            want = t.ite(t.lt(j, o.size), t.sel(oa, j), d)
            out.append((('C13',), 'the requested number of digits', t.eq(n.size, c.old[1])))
        out.append((('C13',), 'every digit is where it belongs', t.imp(inr, t.eq(t.sel(na, j), want))))
        return out


class Clear(Spec):
    frame_tags = ('C13',)
    props = ('C10', 'C13')
    mods = (0,)

    def post(self, c):
        n = c.new[0]
        return [(('C13',), 'the number is zero', t.and_(t.eq(DESC(n), num(POS)), NODIGITS(n)))]


class SetDesc(Spec):
    frame_tags = ('C13',)
    props = ('C10', 'C13')
    mods = (0,)

    def post(self, c):
        o, n, d = c.old[0], c.new[0], c.old[1]
        sp = t.ge(d, num(NAN))
        return [(('C13',), 'the descriptor is the given one', t.eq(DESC(n), d)),
                (('C13',), 'infinities and NaN have no digits', t.imp(sp, NODIGITS(n))),
                (('C13',), 'a sign keeps the digits', t.imp(t.not_(sp), SAME(DIG(o), DIG(n))))]


class Subscript(Spec):
    """operator[]: throws for an index that is out of range"""
    frame_tags = ref_tags = ('C13',)
    props = ('C10', 'C13')

    def throws(self, c):
        return (t.ge(c.old[1], DIG(c.old[0]).size), None)

    def ref_result(self, c):
        return c.objs[0].f('numData').i(c.old[1])

    def post(self, c):
        want = c.ex.elem_get(DIG(c.old[0]), c.old[1])
        return [(('C13',), 'yields the digit at the index', SAME(want, c.retv))]


class Print(Spec):
    """operator<<(ostream, Bignum)"""
    frame_tags = ref_tags = ('C12',)
    props = ('C10', 'C12')
    mods = (0,)
    alias_sets = ('',)

    def alias_of(self, objs):
        return ''

    def post(self, c):
        o, x, n = c.old[0], c.old[1], c.new[0]
        from .stdlib import emit_str
        d = DIG(x)
        arr = DA(d)
        neg = t.emitC(o, t.num(ord('-')))
        finout = lambda p: [(t.eq(d.size, t.ZERO), t.emitC(p, num(ord('0')))), (t.ge(d.size, t.ONE), t.render(p, arr, d.size, t.ZERO))]
        out = []
        cases = []
        for cnd, w in finout(o):
            cases.append((t.and_(t.eq(DESC(x), num(POS)), cnd), w))
        for cnd, w in finout(neg):
            cases.append((t.and_(t.eq(DESC(x), num(NEG)), cnd), w))
        for dv, s in ((PINF, '+INF'), (NINF, '-INF'), (NAN, 'NaN')):
            cases.append((t.eq(DESC(x), num(dv)), emit_str(o, s)))
        for cnd, w in cases:
            out.append((('C12',), 'exactly the sign and digits (or the name) are written', t.imp(cnd, t.eq(n, w))))
        return out


# -------------------------------------------------------------- client lemmas

class Law(Spec):
    """extract/laws.h: a client of the operators returns true for all finite numbers"""
    may_alloc = False
    props = ('C17',)
    frame_tags = ('C17',)

    def pre(self, c):
        return [('well formed finite numbers', t.and_(*[WF(x) for x in c.old]))]

    def post(self, c):
        return [(('C17',), 'the law %s holds' % self.name[4:], c.ret)]


class SameNum(Spec):
    """extract/laws.h: two ways to compute a number agree in descriptor and digits"""
    may_alloc = False
    props = ('C07',)
    frame_tags = ('C07',)

    @property
    def mods(self):
        return (len(self.fn['params']) - 2, len(self.fn['params']) - 1)

    def pre(self, c):
        n = len(c.old) - 2
        return [('operands are numbers, infinities or NaN', t.and_(*[OPERAND(x) for x in c.old[:n]]))]

    def post(self, c):
        x, y = c.new[-2:]
        return [(('C07',), '%s: the same descriptor' % self.name, t.eq(DESC(x), DESC(y))),
                (('C07',), '%s: the same number of digits' % self.name, t.eq(DIG(x).size, DIG(y).size)),
                (('C07',), '%s: the same digits' % self.name, SAME(DIG(x), DIG(y)))]


# ------------------------------------------------------------ integer wrapper

class IntOp(Spec):
    """BNIntType operators against the built-in operator"""
    props = ('C14', 'C10')
    tags = ('C14',)

    def __init__(self, name, op, kind, w, rn):
        Spec.__init__(self, name)
        self.op, self.kind, self.w = op, kind, w
        self.rn = rn

    def _n(self, v):
        return v if isinstance(v, t.T) else v.f['num']

    def _builtin(self, c, quiet):
        """value of the built-in operation converted to the wrapped type; obligations go to c.ex"""
        ex = c.ex
        w = self.w
        ct = {'k': 'int', 'w': 32, 's': True} if w < 32 else {'k': 'int', 'w': w, 's': False}
        vals = [self._n(v) for v in c.old if v is not None]
        ex.quiet += 1
        st = c.st0.clone()
        try:
            if self.kind in ('bin', 'casg'):
                r = ex.arith(st, self.op, vals[0], vals[1], ct, '')
            elif self.kind == 'rel':
                return ex.compare(self.op, vals[0], vals[1])
            elif self.kind == 'un':
                v = vals[0]
                if self.op == '!':
                    return t.b2i(t.eq(v, t.ZERO))
                r = {'+': lambda: v, '-': lambda: t.neg(v), '~': lambda: t.addn(t.neg(v), -1)}[self.op]()
            elif self.kind in ('pre', 'postf'):
                r = t.addn(vals[0], 1 if self.op == '++' else -1)
            elif self.kind in ('val',):
                r = vals[-1] if vals else t.ZERO
            return ex.wrapx(st, r, w, False)
        finally:
            ex.quiet -= 1

    def pre(self, c):
        w = self.w
        out = []
        vals = [self._n(v) for v in c.old if v is not None]
        if self.kind in ('bin', 'casg'):
            a, b = vals[:2]
            pw = max(w, 32)
            if self.op in ('/', '%'):
                out.append(('divisor not zero', t.ne(b, t.ZERO)))
            if self.op in ('<<', '>>'):
                out.append(('shift below the width of the promoted type', t.lt(b, t.num(pw))))
            if self.op == '*' and w == 16:
                out.append(('no int overflow in the built-in operation', t.lt(t.mul(a, b), t.num(1 << 31))))
        return out

    @property
    def mods(self):
        return (0,) if self.kind in ('casg', 'pre', 'postf', 'asg') else ()

    def modifies(self, c):
        return [c.objs[i] for i in self.mods] if self.kind != 'ctor' else []

    def post(self, c):
        k = self.kind
        if k in ('asg',):
            v = self._n(c.old[1])
            return [(self.tags, 'the assigned value', t.eq(self._n(c.new[0]), v)), (self.tags, 'yields its left operand', SAME(c.retv, c.new[0]))]
        if k == 'ctor':
            v = self._n(c.old[1]) if len(c.old) > 1 else t.ZERO
            return [(self.tags, 'holds the given value', t.eq(self._n(c.new[0]), v))]
        if k == 'conv':
            return [(self.tags, 'the wrapped value', t.eq(c.ret, self._n(c.old[0])))]
        v = self._builtin(c, True)
        if k == 'rel':
            return [(self.tags, 'the built-in relation', t.iff(c.ret, v))]
        if k in ('bin', 'un'):
            return [(self.tags, 'the value of the built-in operation', t.eq(self._n(c.retv), v))]
        if k in ('casg', 'pre'):
            return [(self.tags, 'the value of the built-in operation', t.eq(self._n(c.new[0]), v)),
                    (self.tags, 'yields its left operand', SAME(c.retv, c.new[0]))]
        if k == 'postf':
            return [(self.tags, 'changes the object by one', t.eq(self._n(c.new[0]), v)), (self.tags, 'yields the old value', t.eq(self._n(c.retv), self._n(c.old[0])))]
        raise Refuse(k)


class IntPrint(Spec):
    frame_tags = ref_tags = ('C14',)
    props = ('C14', 'C10')
    mods = (0,)

    def alias_of(self, objs):
        return ''

    def __init__(self, name, w):
        Spec.__init__(self, name)
        self.w = w

    def post(self, c):
        v = c.old[1].f['num']
        # a one byte integer is a character to the stream, as for the built-in type
        want = t.emitC(c.old[0], v) if self.w == 8 else t.emitN(c.old[0], v)
        return [(('C14',), 'prints like the integer', t.eq(c.new[0], want))]


# -------------------------------------------------------------------- FFT

class IsPow2(Spec):
    frame_tags = ('C18',)
    props = ('C18', 'C10')
    def post(self, c):
        return [(('C18',), 'true exactly for powers of two', t.iff(c.ret, t.pow2p(c.old[0])))]


class NextPow2(Spec):
    frame_tags = ('C18',)
    props = ('C18', 'C10')
    def pre(self, c):
        return [('argument at most 2^63', t.le(c.old[0], t.num(1 << 63)))]

    def post(self, c):
        n, r = c.old[0], c.ret
        return [(('C18',), 'zero for zero', t.imp(t.eq(n, t.ZERO), t.eq(r, t.ZERO))),
                (('C18',), 'a power of two', t.imp(t.ge(n, t.ONE), t.pow2p(r))),
                (('C18',), 'not below the argument', t.le(n, r)),
                (('C18',), 'the least one', t.imp(t.ge(n, t.ONE), t.lt(r, t.scale(n, 2))))]


class FFTTable(Spec):
    frame_tags = ('C18',)
    props = ('C18', 'C10')
    may_alloc = True
    alias_sets = ('', '01')

    def pre(self, c):
        a, b = c.old
        return [('not both empty', t.ge(t.add(a.size, b.size), t.ONE))]

    def result(self, c, st):
        v = c.ex.fresh_val(c.fn['rt'], 'fft')
        a, b = c.old
        return v.upd(ghost=('table', a, b))

    def post(self, c):
        a, b = c.old
        r = c.ret
        n = t.add(a.size, b.size)
        out = [(('C18',), 'the length is a power of two', t.pow2p(r.size)),
               (('C18',), 'room for the product', t.le(n, r.size)),
               (('C18',), 'the least such length', t.lt(r.size, t.scale(n, 2)))]
        j = t.sym('index', 0, 1 << 56)
        inr = t.lt(j, r.size)
        for nm, p, x in (('real', ('re',), a), ('imaginary', ('im',), b)):
            if len(x.arrs) != 1:
                raise Refuse('digits')
            out.append((('C18',), 'the %s parts are the digits, then zeroes' % nm,
                        t.imp(inr, t.eq(t.sel(r.arrs[p], j), t.ite(t.lt(j, x.size), t.sel(x.arr(), j), t.ZERO)))))
        return out


def _single(fft):
    if not isinstance(fft, VecV) or ('re',) not in fft.arrs:
        raise Refuse('complex list')
    return fft


class FFT(Spec):
    """fft_complex, ifft_complex: in place, the length stays"""
    frame_tags = ('C18',)
    props = ('C18', 'C10', 'C19')
    mods = (0,)
    may_alloc = True

    def pre(self, c):
        return [('at least one element', t.ge(_single(c.old[0]).size, t.ONE)), ('the length is a power of two', t.pow2p(c.old[0].size))]

    def measure(self, c):
        return c.old[0].size

    def post(self, c):
        return [(('C18',), 'the length stays', t.eq(c.new[0].size, c.old[0].size))] + self.real(c)

    def real(self, c):
        """what the function computes where doubles are real numbers"""
        if not c.ex.real:
            return []
        a, b = c.old[0], c.new[0]
        out = []
        for nm, p in (('real', 're'), ('imaginary', 'im')):
            A, B = a.arrs[('re',)], a.arrs[('im',)]
            if self.name == 'convolute_fft':
                w = t.transform('cnv', *[t.transform('dft', A, B, a.size, q) for q in ('re', 'im')], a.size, p)
                what = 'the pointwise products of the transform'
            else:
                w = t.transform('idft' if self.name == 'ifft_complex' else 'dft', A, B, a.size, p)
                what = 'the inverse transform' if self.name == 'ifft_complex' else 'the discrete Fourier transform'
            out.append((('C19',), '%s: %s parts' % (what, nm), t.aeqn(b.arrs[(p,)], w, a.size)))
        return out

    def given(self, c, st):
        v = c.old[0]
        if self.name != 'ifft_complex' or v.ghost is None or v.ghost[0] != 'conv':
            return []
        a, b = v.ghost[1:]
        n = c.new[0]
        c.ex.fresh_n += 1
        C = t.asym('conv!%d' % c.ex.fresh_n, 32)
        c.ex.save(st, c.objs[0], n.upd(ghost=('near', C)))
        M = t.Ctx.B - 1
        ok = t.and_(VALID(a), VALID(b), t.le(t.min2(a.size, b.size), num((1 << 31) // (M * M))), t.le(t.add(a.size, b.size), n.size))
        return [(FFT_ASSUMPTION, t.imp(ok, t.and_(t.near(n.arrs[('re',)], C, n.size), t.eq(t.V(C, n.size), t.mul(VAL(a), VAL(b))))))]


FFT_ASSUMPTION = ('rounding in the transforms: for two digit strings a, b with min(length) * (base-1)^2 <= 2^31, convolute_fft followed by ifft_complex on '
                  'the table of a and b leaves real parts within 1/4 of the exact convolution sums (without rounding they are exact: C19 and lemmas/fft.lean)')


class Convolve(FFT):
    def given(self, c, st):
        v = c.old[0]
        if v.ghost is not None and v.ghost[0] == 'table':
            c.ex.save(st, c.objs[0], c.new[0].upd(ghost=('conv',) + tuple(v.ghost[1:])))
        return []


class RoundTrip(FFT):
    """extract/laws.h: one transform after the other gives the list back (C19)"""
    props = ('C19',)
    optional = False

    def given(self, c, st):
        return []

    def real(self, c):
        if not c.ex.real:
            return []
        a, b = c.old[0], c.new[0]
        return [(('C19',), 'the list is back: %s parts' % nm, t.aeqn(b.arrs[(p,)], a.arrs[(p,)], a.size)) for nm, p in (('real', 're'), ('imaginary', 'im'))]


# ----------------------------------------------------------------- registry

REL = {'==': 'operator==', '!=': 'operator!=', '<': 'operator<', '<=': 'operator<=', '>': 'operator>', '>=': 'operator>='}


def _ptypes(fn):
    return [p['t'] for p in fn['params']]


def _isnum(ty):
    """const reference to a Bignum?"""
    return ty['k'] == 'ref' and ty['t'].get('b') == 'Bignum'


def find_spec(db, fn):
    """contract of a function, or None"""
    if fn is None or fn.get('sys'):
        return None
    b = base_name(fn)
    cls = fn.get('cls')
    qn = _strip(fn['qn'])
    ps = _ptypes(fn)
    if (cls is None or cls.get('b') == 'lambda') and len(ps) == 1 and (fn.get('rt') or {}).get('k') == 'void' and ps[0]['k'] == 'ref' \
            and not ps[0]['t'].get('c') and vec_et(ps[0]) is not None and digit_base(vec_et(ps[0])):
        return Double(short(fn))
    if cls is None and qn == 'bnlaw::' + b and b.startswith('law_fft_'):
        return RoundTrip(b)
    if cls is None and qn == 'bnlaw::' + b:
        return Law(b) if b.startswith('law_') else SameNum(b, fn)
    if cls is None:
        if qn != b and not qn.endswith('::' + b):
            return None
        if '::' in qn:
            return None
        if b.startswith('abs_val_') and len(ps) == 2 and all(vec_et(p) is not None and digit_base(vec_et(p)) for p in ps):
            k = b[8:]
            if k.startswith('is_') and k[3:] in ('eq', 'gt', 'ge', 'lt', 'le'):
                return MagCmp(b, k[3:])
            return {'add': AbsAdd, 'sub': AbsSub, 'div': AbsDiv}.get(k, lambda n: None)(b)
        if b in ('mul_naive', 'mul_strassen') and len(ps) == 2 and all(vec_et(p) is not None and digit_base(vec_et(p)) for p in ps):
            return AbsMul(b)
        if b == 'operator<<' and len(ps) == 2 and ps[0]['k'] == 'ref' and ps[0]['t'].get('b') == 'std::basic_ostream':
            if _isnum(ps[1]):
                return Print(b)
            if ps[1]['k'] == 'ref' and ps[1]['t'].get('b') == 'BNIntType':
                return IntPrint(b, _intw(db, ps[1]['t']))
        if b == 'isPow2' and len(ps) == 1 and ps[0].get('w') == 64:
            return IsPow2(b)
        if b == 'nextPow2' and len(ps) == 1 and ps[0].get('w') == 64:
            return NextPow2(b)
        if b == 'create_fft_table' and len(ps) == 2:
            return FFTTable(b)
        if b in ('fft_complex', 'ifft_complex') and len(ps) == 1:
            return FFT(b)
        if b == 'convolute_fft' and len(ps) == 1:
            return Convolve(b)
        if b.startswith('operator') and len(ps) == 2 and ps[1]['k'] == 'ref' and ps[1]['t'].get('b') == 'BNIntType' and ps[0]['k'] == 'ref' and ps[0]['t']['k'] == 'int':
            return _int_spec(db, b, b[8:], ps[0]['t']['w'], 2, free=True)
        return None
    if cls.get('b') == 'BNIntType':
        return int_member(db, fn, b, ps)
    if cls.get('b') == 'Bignum':
        return bignum_member(db, fn, b, ps)
    return None


def _intw(db, ty):
    r = db.records.get(ty['n'])
    return r['f'][0]['t']['w']


def _int_spec(db, b, op, w, nargs, free=False):
    if op in REL:
        return IntOp(b, op, 'rel', w, '')
    if op.endswith('=') and op[:-1] in ('+', '-', '*', '/', '%', '&', '|', '^', '>>', '<<'):
        return IntOp(b, op[:-1], 'casg', w, '')
    if op in ('+', '-', '*', '/', '%', '&', '|', '^', '>>', '<<'):
        return IntOp(b, op, 'bin', w, '')
    return None


def int_member(db, fn, b, ps):
    w = _intw(db, fn['cls'])
    if b == 'BNIntType':
        s = IntOp(b, '', 'ctor', w, '')
        return s
    if b.startswith('~'):
        return None
    if b.startswith('operator '):
        return IntOp(b, '', 'conv', w, '')
    op = b[8:]
    if op == '=':
        return IntOp(b, '', 'asg', w, '')
    if op in ('++', '--'):
        return IntOp(b, op, 'postf' if ps else 'pre', w, '')
    if not ps and op in ('!', '+', '-', '~'):
        return IntOp(b, op, 'un', w, '')
    return _int_spec(db, b, op, w, 2)


def bignum_member(db, fn, b, ps):
    n = len(ps)
    if b == 'Bignum':
        if n == 0:
            return DefaultCtor(b)
        if n == 2 and ps[0]['k'] == 'enum':
            return Ctor(b)
        if n == 1 and _isnum(ps[0]):
            return CopyCtor(b, bool(ps[0].get('rv')))
        return None
    if b in ('operator=',) and n == 1 and _isnum(ps[0]):
        return Assign(b, bool(ps[0].get('rv')))
    if n == 1 and _isnum(ps[0]) and b.startswith('operator'):
        op = b[8:]
        tagc = {'+': 'C01', '-': 'C02', '*': 'C03', '/': 'C04'}
        if op in REL:
            return Rel(b, op)
        if op in tagc:
            return Binary(b, op, tagc[op])
        if op.endswith('=') and op[:-1] in tagc:
            return Compound(b, op[:-1], tagc[op[:-1]])
        return None
    if b == 'operator[]' and n == 1:
        return Subscript(b)
    if n == 0:
        obs = {'isPositive': POSITIVE, 'isNegative': lambda x: t.or_(t.eq(DESC(x), num(NEG)), t.eq(DESC(x), num(NINF))),
               'isInfinite': ISINF, 'isNan': lambda x: t.eq(DESC(x), num(NAN)), 'getDescriptor': DESC, 'size': lambda x: DIG(x).size}
        if b in obs:
            return Pred(b, obs[b])
        if b == 'getData':
            return GetData(b, DIG)
        if b == 'clear':
            return Clear(b)
    if b == 'isComputable' and n == 1:
        return Pred(b, lambda d: t.le(d, num(NEG)))
    if b == 'setDescriptor' and n == 1:
        return SetDesc(b)
    edits = {'push_front': (1, True), 'pop_front': (0, False), 'push_back': (1, True), 'pop_back': (0, False), 'push': (2, True),
             'pop': (1, False), 'resize': (2, True)}
    if b in edits and n == edits[b][0]:
        return Edit(b, b, edits[b][1])
    return None


# functions small enough (and loop free) to be inlined at their call sites:
# their contracts are verified on their own, callers see the code
INLINE = {'getData', 'getDescriptor', 'isComputable', 'isPositive', 'isNegative', 'isInfinite', 'isNan', 'size', 'operator[]',
          'clear', 'setDescriptor', 'Bignum', 'operator='}


class Specs:
    def __init__(self, db, kernel=True):
        self.db = db
        self.cache = {}
        self.kernel = kernel
        self.top = None     # the function being verified
        self.proved = set() # functions with an optional contract that their body meets

    def find(self, ex, f, fn):
        if fn is None:
            return None
        k = fn['_k']
        if k not in self.cache:
            s = find_spec(self.db, fn)
            if s is not None:
                cls = fn.get('cls')
                if (cls and cls.get('b') == 'BNIntType') or isinstance(s, (IntOp, IntPrint)):
                    s.inline = True
                elif cls and s.name in INLINE and not isinstance(s, Ctor):
                    s.inline = True
                if s.optional and k not in self.proved:
                    s.inline = True
            self.cache[k] = s
        return self.cache[k]


# what stays unchecked, per property (besides the trusted base)
COMMON = ['operands are well formed (the precondition of every contract): digits below the base, no most significant zero, no digits in an infinity or NaN',
          'NDEBUG is defined (assertions off), as in the build of this repository']
ASSUMPTIONS = {p: COMMON for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C15', 'C17')}
ASSUMPTIONS['C19'] = ['floating point operations, sine and cosine are taken as exact real operations: the size of the rounding errors is not proved (the search compares the compiled code with exact results on bounded inputs)']
