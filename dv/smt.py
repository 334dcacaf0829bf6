"""Discharging obligations: ground lemma instantiation + SMT.

A `Path` holds hypotheses. Goals are proved against it. The steps are
 1. equalities entailed by the hypotheses (between index terms, constants of
    quotients) are found with the solver and substituted,
 2. the lemma schemas of the digit theory are instantiated on the terms present,
 3. products of unknowns are abstracted by fresh unknowns plus ground product
    lemmas, and the result (linear arithmetic + uninterpreted functions) is
    decided by z3,
 4. if that does not succeed: case splits, and true nonlinear arithmetic.
All lemma schemas are proved in lemmas.py.
"""
import itertools
import math
import time
import z3
from . import terms as t
from .terms import Ctx

STATS = {'queries': 0, 'time': 0.0, 'unknown': 0}
LIN_TIMEOUT = 15000
NIA_TIMEOUT = 16000

IDX_OPS = {'pow': (0,), 'V': (1,), 'R': (1,), 'valid': (1,), 'sel': (1,), 'store': (1,), 'rfill': (1,),
           'ins': (1,), 'del': (1,), 'render': (2, 3), 'slice': (1,), 'rev': (1,), 'aeqn': (2,), 'aeqr': (2, 3), 'near': (2,),
           'dft': (2,), 'idft': (2,), 'cnv': (2,)}


class Enc:
    """Term -> z3 with linearised (or true) products."""

    def __init__(self, nia=False):
        self.memo = {}
        self.keep = []
        self.nia = nia
        self.Arr = z3.DeclareSort('Arr')
        self.Out = z3.DeclareSort('Out')
        I, Bo, Re = z3.IntSort(), z3.BoolSort(), z3.RealSort()
        self.f = {
            'sel': z3.Function('sel', self.Arr, I, I), 'selR': z3.Function('selR', self.Arr, I, Re),
            'V': z3.Function('V', self.Arr, I, I), 'R': z3.Function('R', self.Arr, I, I),
            'pow': z3.Function('pow', I, I), 'valid': z3.Function('valid', self.Arr, I, Bo),
            'render': z3.Function('render', self.Out, self.Arr, I, I, self.Out),
            'emitC': z3.Function('emitC', self.Out, I, self.Out),
            'emitN': z3.Function('emitN', self.Out, I, self.Out),
            'band': z3.Function('band', I, I, I), 'bor': z3.Function('bor', I, I, I),
            'bxor': z3.Function('bxor', I, I, I), 'shl': z3.Function('shl', I, I, I),
            'shr': z3.Function('shr', I, I, I), 'imod': z3.Function('imod', I, I, I),
            'pow2p': z3.Function('pow2p', I, Bo), 'aeqn': z3.Function('aeqn', self.Arr, self.Arr, I, Bo), 'aeqr': z3.Function('aeqr', self.Arr, self.Arr, I, I, Bo),
            'near': z3.Function('near', self.Arr, self.Arr, I, Bo),
            'recip': z3.Function('recip', Re, Re), 'cosr': z3.Function('cosr', Re, Re), 'sinr': z3.Function('sinr', Re, Re),
            'idiv': z3.Function('idiv', I, I, I), 'shlw': z3.Function('shlw', I, I, I),
        }
        self.monos = {}
        self.side = []   # definitional facts for new atoms

    def e(self, x):
        r = self.memo.get(x.id)
        if r is None:
            r = self._e(x)
            self.memo[x.id] = r
            self.keep.append(x)
        return r

    def mono(self, m):
        if len(m) == 1:
            return self.e(m[0])
        k = tuple(y.id for y in m)
        r = self.monos.get(k)
        if r is None:
            if self.nia:
                z = None
                for y in m:
                    z = self.e(y) if z is None else z * self.e(y)
            else:
                real = any(y.s == 'R' for y in m)
                nm = 'm_' + '_'.join(map(str, k))
                z = z3.Real(nm) if real else z3.Int(nm)
            r = z
            self.monos[k] = r
            self.keep.append(m)
        return r

    def _e(self, x):
        op = x.op
        if op == 'num':
            if x.s == 'R':
                return z3.RealVal(str(x.v))
            return z3.IntVal(x.v)
        if op == 'poly':
            real = x.s == 'R'
            acc = []
            for m, c in x.v[0]:
                if m == ():
                    acc.append(z3.RealVal(str(c)) if real else z3.IntVal(c))
                else:
                    z = self.mono(m)
                    if real and z.sort() == z3.IntSort():
                        z = z3.ToReal(z)
                    acc.append(z if c == 1 else (z3.RealVal(str(c)) if real else z3.IntVal(c)) * z)
            return z3.Sum(acc) if len(acc) > 1 else acc[0]
        if op == 'sym':
            return {'I': z3.Int, 'R': z3.Real, 'B': z3.Bool}[x.s]('s_%s_%d' % (x.v, x.id))
        if op == 'asym' or op in ('carr', 'store', 'fill', 'rfill', 'ins', 'del', 'aite', 'slice', 'rev', 'stride', 'aneg', 'dft', 'idft', 'cnv'):
            return z3.Const('a_%d' % x.id, self.Arr)
        if op in ('osym', 'cout'):
            return z3.Const('o_%d' % x.id, self.Out)
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'le0':
            p = self.e(x.a[0])
            return p <= 0
        if op == 'eq0':
            return self.e(x.a[0]) == 0
        if op in ('oeq', 'aeq'):
            return self.e(x.a[0]) == self.e(x.a[1])
        if op == 'not':
            return z3.Not(self.e(x.a[0]))
        if op == 'and':
            return z3.And([self.e(y) for y in x.a])
        if op == 'or':
            return z3.Or([self.e(y) for y in x.a])
        if op == 'ite':
            return z3.If(self.e(x.a[0]), self.e(x.a[1]), self.e(x.a[2]))
        if op in ('div', 'max2', 'min2'):
            return z3.Int('%s_%d' % (op, x.id))
        if op == 'floor':
            return z3.Int('fl_%d' % x.id)
        if op == 'sel' and x.s == 'R':
            return self.f['selR'](self.e(x.a[0]), self.e(x.a[1]))
        if op in ('recip', 'cosr', 'sinr'):
            y = self.e(x.a[0])
            return self.f[op](z3.ToReal(y) if y.sort() == z3.IntSort() else y)
        if op in self.f:
            return self.f[op](*[self.e(y) for y in x.a])
        if op == 'bsym':
            return z3.Bool('b_%d' % x.id)
        raise NotImplementedError(op)


def atom_facts(x):
    """Facts true of an atom by definition."""
    r = FACTS.get(x.id)
    if r is None:
        r = FACTS[x.id] = _atom_facts(x)
    return r


def _atom_facts(x):
    op = x.op
    out = []
    if op == 'div':
        n = x.v
        r = t.sub(x.a[0], t.scale(x, n))
        out.append(mk_le0(t.neg(r)))
        out.append(mk_le0(t.addn(r, -(n - 1))))
    elif op == 'max2':
        a, b = x.a
        out += [mk_le0(t.sub(a, x)), mk_le0(t.sub(b, x)), t.or_(mk_le0(t.sub(x, a)), mk_le0(t.sub(x, b)))]
    elif op == 'min2':
        a, b = x.a
        out += [mk_le0(t.sub(x, a)), mk_le0(t.sub(x, b)), t.or_(mk_le0(t.sub(a, x)), mk_le0(t.sub(b, x)))]
    elif op == 'floor':
        # f <= y < f + 1
        out += [mk_le0(t.sub(x, x.a[0])), t.mk('not', (mk_le0(t.sub(t.addn(x, 1), x.a[0])),), None, 'B')]
    elif op == 'band':
        out += [mk_le0(t.sub(x, y)) for y in x.a if t.nonneg(y)]
    elif op == 'imod':
        a, b = x.a
        bad = t.or_(t.lt(a, t.ZERO), t.le(b, t.ZERO))
        out += [t.or_(bad, mk_le0(t.addn(t.sub(x, b), 1))), t.or_(bad, mk_le0(t.sub(x, a))),
                t.or_(bad, mk_le0(t.sub(b, a)), t.eq(x, a)), t.or_(bad, mk_le0(t.neg(x)))]
    elif op == 'idiv':
        a, b = x.a
        out += [t.or_(t.lt(a, t.ZERO), t.le(b, t.ZERO), t.and_(mk_le0(t.sub(x, a)), mk_le0(t.neg(x))))]
    if x.s == 'I' and op not in ('num', 'poly'):
        lo, hi = t.rng(x)
        if lo is not None:
            out.append(mk_le0(t.sub(t.num(lo), x)))
        if hi is not None:
            out.append(mk_le0(t.sub(x, t.num(hi))))
    return [o for o in out if o is not t.TRUE]


def mk_le0(p):
    """le0 without interval simplification (for stating the interval itself)"""
    if p.op == 'num':
        return t.boolt(p.v <= 0)
    return t.mk('le0', (p,), None, 'B')


# -------------------------------------------------------- lemma instances

def pairs(xs):
    return itertools.combinations(xs, 2)


def step_pow(a, b):
    """pow(b) vs pow(a) where b = a+1"""
    return t.imp(t.and_(t.ge(a, t.ZERO), t.eq(b, t.addn(a, 1))), t.eq(rawpow(b), t.scale(rawpow(a), Ctx.B)))


def rawpow(n):
    return t.pow_(n)


MAXPAIR = 14
LEM = {}        # lemma instances by schema and terms (they do not depend on the path)
MLEM = {}
FACTS = {}
ENC = {}


def _reset():
    LEM.clear()
    MLEM.clear()
    FACTS.clear()
    ENC.clear()


t._on_reset.append(_reset)


def the_enc():
    if 'lin' not in ENC:
        ENC['lin'] = Enc()
    return ENC['lin']


def zassert(s, f):
    z3.z3core.Z3_solver_assert(s.ctx.ref(), s.solver, f.as_ast())



def lemmas(terms, done, level=0):
    """terms: dict id->T of all subterms. Returns list of new lemma instances."""
    out = []
    B = Ctx.B

    def emit(key, f):
        if key in done:
            return
        done.add(key)
        r = LEM.get(key)
        if r is None:
            r = f()
            r = [x for x in (r if isinstance(r, (list, tuple)) else (r,)) if x is not t.TRUE]
            LEM[key] = r
        out.extend(r)

    by = {}
    for x in terms.values():
        by.setdefault(x.op, []).append(x)
    for k in by:
        by[k].sort(key=lambda x: x.id)

    idx0 = t.ZERO
    # ---- pow
    pows = [x.a[0] for x in by.get('pow', [])]
    pidx = list(pows)
    for n in pows:
        def f(n=n):
            r = [t.imp(t.le(n, idx0), t.eq(rawpow(n), t.ONE))]
            # pow(x - c): relate to pow(x)
            its = t.items(n)
            cs = [c for m, c in its if m == ()]
            if cs and cs[0] < 0:
                base = t.addn(n, -cs[0])
                r.append(t.imp(t.ge(n, idx0), t.eq(t.scale(rawpow(n), B ** (-cs[0])), rawpow(base))))
            # products: pow(a + b - c ..) handled by normal form
            return r
        emit(('pow', n.id), f)
    for a, b in pairs(pidx):
        def f(a=a, b=b):
            pa, pb = rawpow(a), rawpow(b)
            if pa.op == 'num' and pb.op == 'num':
                return []
            r = [t.imp(t.le(a, b), t.le(pa, pb)), t.imp(t.le(b, a), t.le(pb, pa))]
            r.append(t.imp(t.and_(t.ge(a, idx0), t.lt(a, b)), t.le(t.scale(pa, B), pb)))
            r.append(t.imp(t.and_(t.ge(b, idx0), t.lt(b, a)), t.le(t.scale(pb, B), pa)))
            r.append(t.imp(t.and_(t.ge(a, idx0), t.eq(t.addn(a, 1), b)), t.eq(t.scale(pa, B), pb)))
            r.append(t.imp(t.and_(t.ge(b, idx0), t.eq(t.addn(b, 1), a)), t.eq(t.scale(pb, B), pa)))
            return r
        emit(('powp', a.id, b.id), f)
    # sums of indices: pow(a) * pow(b) = pow(c) when c = a + b (non-syntactic sums)
    monos = set()
    for x in by.get('poly', []):
        for m, c in x.v[0]:
            pm = tuple(y for y in m if y.op == 'pow')
            if len(pm) >= 2:
                monos.add(pm[:2])
    for (p, q) in sorted(monos, key=lambda m: (m[0].id, m[1].id)):
        for c in pidx:
            a, b = p.a[0], q.a[0]
            if c is a or c is b:
                continue
            emit(('powsum', p.id, q.id, c.id), lambda: [
                t.imp(t.and_(t.ge(a, idx0), t.ge(b, idx0), t.eq(c, t.add(a, b))), t.eq(t.mul(p, q), rawpow(c))),
                t.imp(t.and_(t.ge(a, idx0), t.ge(b, idx0), t.le(c, t.add(a, b))), t.le(rawpow(c), t.mul(p, q))),
                t.imp(t.and_(t.ge(a, idx0), t.ge(b, idx0), t.ge(c, t.add(a, b))), t.ge(rawpow(c), t.mul(p, q)))])

    # ---- V
    byarr = {}
    for x in by.get('V', []):
        byarr.setdefault(x.a[0].id, (x.a[0], []))[1].append(x.a[1])
    valids = {}
    for x in by.get('valid', []):
        valids.setdefault(x.a[0].id, (x.a[0], []))[1].append(x.a[1])
    sels = {}
    for x in by.get('sel', []):
        sels.setdefault(x.a[0].id, (x.a[0], []))[1].append(x.a[1])
    storeidx = {}
    for x in by.get('store', []):
        storeidx.setdefault(x.id, []).append(x.a[1])

    for aid, (a, ns) in byarr.items():
        have = {n.id for n in ns}
        for i in sels.get(aid, (None, []))[1]:
            for j in (i, t.addn(i, 1)):
                if j.id not in have and j.op != 'num':
                    have.add(j.id)
                    ns.append(j)
        for n in ns:
            def f(a=a, n=n):
                v = t.V(a, n)
                return [t.imp(t.le(n, idx0), t.eq(v, idx0)),
                        t.imp(t.valid(a, n), t.le(v, t.addn(t.pow_(n), -1)))]
            emit(('V', a.id, n.id), f)
            if a.op == 'store':
                def f(a=a, n=n):
                    a0, i, v = a.a
                    inside = t.and_(t.ge(i, idx0), t.lt(i, n))
                    return [t.imp(inside, t.eq(t.V(a, n), t.add(t.V(a0, n), t.mul(t.sub(v, t.sel(a0, i)), t.pow_(i))))),
                            t.imp(t.not_(inside), t.eq(t.V(a, n), t.V(a0, n)))]
                emit(('Vst', a.id, n.id), f)
            elif a.op == 'rfill':
                def f(a=a, n=n):
                    a0, fr, v = a.a
                    r = [t.imp(t.le(n, fr), t.eq(t.V(a, n), t.V(a0, n)))]
                    if v is t.ZERO:
                        r.append(t.imp(t.and_(t.ge(n, fr)), t.eq(t.V(a, n), t.V(a0, fr))))
                    return r
                emit(('Vrf', a.id, n.id), f)
            # steps at the indices where digits are read or written
            for i in sels.get(aid, (None, []))[1]:
                if i.op == 'num':
                    continue
                d = t.sub(n, i)
                if d.op == 'num' and d.v not in (0, 1):
                    continue

                def f(a=a, n=n, i=i):
                    j = t.addn(i, 1)
                    stp = t.eq(t.V(a, j), t.add(t.V(a, i), t.mul(t.sel(a, i), t.pow_(i))))
                    return [t.imp(t.ge(i, idx0), stp)]
                emit(('Vstep', a.id, i.id), f)
        for m, n in pairs(ns[:MAXPAIR]):
            def f(a=a, m=m, n=n):
                d = t.sub(n, m)
                r = []
                if not (d.op == 'num' and d.v < 0):
                    r.append(t.imp(t.le(m, n), t.le(t.V(a, m), t.V(a, n))))
                    r.append(t.imp(t.and_(t.le(m, n), t.ge(m, idx0), t.valid(a, n)),
                                   t.le(t.sub(t.V(a, n), t.V(a, m)), t.sub(t.pow_(n), t.pow_(m)))))
                if not (d.op == 'num' and d.v > 0):
                    r.append(t.imp(t.le(n, m), t.le(t.V(a, n), t.V(a, m))))
                    r.append(t.imp(t.and_(t.le(n, m), t.ge(n, idx0), t.valid(a, m)),
                                   t.le(t.sub(t.V(a, m), t.V(a, n)), t.sub(t.pow_(m), t.pow_(n)))))
                if d.op != 'num' or d.v == 1:
                    r.append(t.imp(t.and_(t.ge(m, idx0), t.eq(t.addn(m, 1), n)),
                                   t.eq(t.V(a, n), t.add(t.V(a, m), t.mul(t.sel(a, m), t.pow_(m))))))
                if d.op != 'num' or d.v == -1:
                    r.append(t.imp(t.and_(t.ge(n, idx0), t.eq(t.addn(n, 1), m)),
                                   t.eq(t.V(a, m), t.add(t.V(a, n), t.mul(t.sel(a, n), t.pow_(n))))))
                return r
            emit(('Vp', a.id, m.id, n.id), f)

    # ---- valid
    for aid, (a, ns) in valids.items():
        for n in ns:
            def f(a=a, n=n):
                r = [t.imp(t.le(n, idx0), t.valid(a, n))]
                return r
            emit(('val', a.id, n.id), f)
            if a.op == 'store':
                def f(a=a, n=n):
                    a0, i, v = a.a
                    ok = t.and_(t.le(v, t.num(B - 1)))
                    return [t.imp(t.and_(t.valid(a0, n), t.or_(ok, t.ge(i, n), t.lt(i, idx0))), t.valid(a, n)),
                            t.imp(t.and_(t.valid(a0, i), ok, t.eq(n, t.addn(i, 1))), t.valid(a, n)),
                            t.imp(t.and_(t.valid(a, n), t.ge(i, n)), t.valid(a0, n))]
                emit(('valst', a.id, n.id), f)
            elif a.op == 'rfill':
                def f(a=a, n=n):
                    a0, fr, v = a.a
                    ok = t.and_(t.le(v, t.num(B - 1)), t.ge(v, idx0))
                    return [t.imp(t.and_(t.valid(a0, fr), ok), t.valid(a, n)),
                            t.imp(t.and_(t.valid(a0, n), t.le(n, fr)), t.valid(a, n)),
                            t.imp(t.and_(t.valid(a0, n), ok), t.valid(a, n))]
                emit(('valrf', a.id, n.id), f)
            for i in sels.get(aid, (None, []))[1]:
                emit(('valsel', a.id, n.id, i.id), lambda: t.imp(
                    t.and_(t.valid(a, n), t.ge(i, idx0), t.lt(i, n)), t.le(t.sel(a, i), t.num(B - 1))))
                d = t.sub(n, i)
                if d.op != 'num' or d.v == 1:
                    emit(('valstep', a.id, n.id, i.id), lambda: t.imp(
                        t.and_(t.valid(a, i), t.le(t.sel(a, i), t.num(B - 1)), t.eq(n, t.addn(i, 1))), t.valid(a, n)))
        for m, n in pairs(ns[:MAXPAIR]):
            emit(('valp', a.id, m.id, n.id), lambda: [t.imp(t.and_(t.valid(a, n), t.le(m, n)), t.valid(a, m)),
                                                      t.imp(t.and_(t.valid(a, m), t.le(n, m)), t.valid(a, n))])
    # ---- sel of array operations
    for x in by.get('sel', []):
        a, i = x.a
        if a.op == 'store':
            def f(a=a, i=i, x=x):
                a0, j, v = a.a
                return [t.imp(t.eq(i, j), t.eq(x, v)), t.imp(t.ne(i, j), t.eq(x, t.sel(a0, i)))]
            emit(('sst', x.id), f)
        elif a.op == 'rfill':
            def f(a=a, i=i, x=x):
                a0, fr, v = a.a
                return [t.imp(t.ge(i, fr), t.eq(x, v)), t.imp(t.lt(i, fr), t.eq(x, t.sel(a0, i)))]
            emit(('srf', x.id), f)
        elif a.op == 'ins':
            def f(a=a, i=i, x=x):
                a0, p, v = a.a
                return [t.imp(t.lt(i, p), t.eq(x, t.sel(a0, i))), t.imp(t.eq(i, p), t.eq(x, v)),
                        t.imp(t.gt(i, p), t.eq(x, t.sel(a0, t.addn(i, -1))))]
            emit(('sin', x.id), f)
        elif a.op == 'del':
            def f(a=a, i=i, x=x):
                a0, p = a.a
                return [t.imp(t.lt(i, p), t.eq(x, t.sel(a0, i))),
                        t.imp(t.ge(i, p), t.eq(x, t.sel(a0, t.addn(i, 1))))]
            emit(('sde', x.id), f)
    # ---- agreement of arrays below an index
    for x in by.get('aeqn', []):
        a, b, n = x.a
        sk = t.sym('agree!%d' % x.id)

        def f(x=x, a=a, b=b, n=n, sk=sk):
            return [t.or_(x, t.and_(t.ge(sk, idx0), t.lt(sk, n), t.ne(t.sel(a, sk), t.sel(b, sk))))]
        emit(('aeqn', x.id), f)
        for i in sels.get(a.id, (None, []))[1] + sels.get(b.id, (None, []))[1]:
            emit(('aeqns', x.id, i.id), lambda: t.imp(t.and_(x, t.ge(i, idx0), t.lt(i, n)), t.eq(t.sel(a, i), t.sel(b, i))))
        for k, m in [(k, m) for k in (a, b) for m in byarr.get(k.id, (None, []))[1]]:
            emit(('aeqnV', x.id, m.id), lambda: t.imp(t.and_(x, t.le(m, n)), t.eq(t.V(a, m), t.V(b, m))))
        for k, m in [(k, m) for k in (a, b) for m in valids.get(k.id, (None, []))[1]]:
            emit(('aeqnv', x.id, m.id), lambda: t.imp(t.and_(x, t.le(m, n)), t.iff(t.valid(a, m), t.valid(b, m))))
        # equal values of valid digits: equal digits (uniqueness of the representation)
        va, vb = (valids.get(k.id, (None, []))[1] or byarr.get(k.id, (None, []))[1] for k in (a, b))
        for m in va[:4]:
            for k in vb[:4]:
                emit(('aeqnU', x.id, m.id, k.id), lambda: t.imp(
                    t.and_(t.eq(m, n), t.eq(k, n), t.valid(a, m), t.valid(b, k), t.eq(t.V(a, m), t.V(b, k))), x))
    for x in by.get('aeqr', []):
        a, b, lo, n = x.a
        sk = t.sym('tail!%d' % x.id)

        def f(x=x, a=a, b=b, lo=lo, n=n, sk=sk):
            r = [t.or_(x, t.and_(t.ge(sk, lo), t.lt(sk, n), t.ne(t.sel(a, sk), t.sel(b, sk))))]
            if a.s == 'AR':
                return r
            return r + [
                    t.imp(t.and_(x, t.ge(lo, idx0), t.le(lo, n)), t.eq(t.sub(t.V(a, n), t.V(a, lo)), t.sub(t.V(b, n), t.V(b, lo))))]
        emit(('aeqr', x.id), f)
        for i in sels.get(a.id, (None, []))[1] + sels.get(b.id, (None, []))[1]:
            emit(('aeqrs', x.id, i.id), lambda: t.imp(t.and_(x, t.ge(i, lo), t.lt(i, n)), t.eq(t.sel(a, i), t.sel(b, i))))
    # ---- powers of two
    for x in by.get('pow2p', []):
        n = x.a[0]
        emit(('pow2p', x.id), lambda: t.imp(x, t.ge(n, t.ONE)))
        h = t.div(n, 2)
        if h.id in terms:
            emit(('pow2ph', x.id), lambda: t.imp(t.and_(x, t.ge(n, t.num(2))), t.and_(t.pow2p(h), t.eq(n, t.scale(h, 2)))))
    # ---- remainders
    for x in by.get('imod', []):
        a, b = x.a
        # 2^64 - b + r leaves r for a power of two b
        emit(('imod', x.id), lambda: [t.imp(t.and_(t.eq(a, b), t.ge(b, t.ONE)), t.eq(x, idx0)),
                                      t.imp(t.and_(t.pow2p(b), t.le(b, t.num(1 << 63)), t.le(t.sub(t.num(1 << 64), b), a), t.lt(a, t.num(1 << 64))),
                                            t.eq(x, t.add(a, t.addn(b, -(1 << 64)))))])
    if 'dft' in by or 'idft' in by or 'cnv' in by:
        transforms(by, sels, emit)
    # ---- rounded convolution sums
    for x in by.get('near', []):
        re, c, n = x.a
        for y in by.get('sel', []):
            if y.a[0] is re:
                i = y.a[1]

                def f(x=x, c=c, n=n, y=y, i=i):
                    ci = t.sel(c, i)
                    q = t.num(t.Fraction(1, 4))
                    return t.imp(t.and_(x, t.ge(i, idx0), t.lt(i, n)), t.and_(t.le(t.sub(ci, q), y), t.le(y, t.add(ci, q)), t.le(ci, t.num(1 << 31))))
                emit(('near', x.id, y.id), f)
    if by.get('near'):
        # V(a, m) * V(b, n) < B^(m + n)
        vv = {}
        for x in by.get('poly', []):
            for m, c in x.v[0]:
                if len(m) == 2 and all(y.op == 'V' for y in m):
                    vv[(m[0].id, m[1].id)] = m
        for k, (x, y) in sorted(vv.items()):
            emit(('vv', k), lambda: t.imp(t.and_(t.valid(*x.a), t.valid(*y.a), t.ge(x.a[1], idx0), t.ge(y.a[1], idx0)),
                                          t.lt(t.mul(x, y), rawpow(t.add(x.a[1], y.a[1])))))
    # ---- R (Horner)
    rarr = {}
    for x in by.get('R', []):
        rarr.setdefault(x.a[0].id, (x.a[0], []))[1].append(x.a[1])
    for aid, (a, ns) in rarr.items():
        for n in ns:
            emit(('R', a.id, n.id), lambda: t.imp(t.le(n, idx0), t.eq(t.R(a, n), idx0)))
        for i in sels.get(aid, (None, []))[1]:
            if i.op != 'num':
                emit(('Rstep', a.id, i.id), lambda: t.imp(t.ge(i, idx0), t.eq(
                    t.R(a, t.addn(i, 1)), t.add(t.scale(t.R(a, i), B), t.sel(a, i)))))
        for m, n in pairs(ns[:MAXPAIR]):
            emit(('Rp', a.id, m.id, n.id), lambda: [t.imp(t.le(m, n), t.le(t.R(a, m), t.R(a, n))),
                                                    t.imp(t.le(n, m), t.le(t.R(a, n), t.R(a, m)))])
    # ---- render
    rn = {}
    for x in by.get('render', []):
        rn.setdefault((x.a[0].id, x.a[1].id, x.a[2].id), []).append(x)
        emit(('ren', x.id), lambda: t.imp(t.ge(x.a[3], x.a[2]), t.eq(x, x.a[0])))
    for k, xs in rn.items():
        o, a, hi, _ = xs[0].a
        for i in sels.get(a.id, (None, []))[1]:
            emit(('rens', k, i.id), lambda: t.imp(t.and_(t.ge(i, idx0), t.lt(i, hi)), t.eq(
                t.render(o, a, hi, i), t.emitN(t.render(o, a, hi, t.addn(i, 1)), t.sel(a, i)))))
    # ---- out stream constructors are injective-ish: nothing needed for positive goals

    # ---- uniqueness of canonical digit strings is a separate proved lemma (lemmas.py)
    return out


PI2 = t.Fraction(math.pi) * 2


def transforms(by, sels, emit):
    """the discrete Fourier transform and its relatives (lemmas/fft.lean): dft_one, dft_lo, dft_hi with twiddle; the definitions of idft
    and cnv; the transforms depend on nothing but the first n elements; idft_dft and dft_idft"""
    at = {}
    for x in by.get('store', []):
        if x.s == 'AR':
            at[x.a[1].id] = x.a[1]

    def indices(x):
        return list(at.values()) or sels.get(x.id, (None, []))[1]

    def both(kind, *a):
        return t.transform(kind, *a, part='re'), t.transform(kind, *a, part='im')
    linked, copies = set(), set()
    for x in by.get('aeqn', []):
        linked.add((x.a[0].id, x.a[1].id))
        linked.add((x.a[1].id, x.a[0].id))
        copies |= {y.id for y, z in (x.a[:2], x.a[1::-1]) if z.op == 'stride'}
    for x in by.get('dft', []):
        A, B, n = x.a
        if A.id in copies or B.id in copies:
            continue        # equal to the transform of every other element of another list: unfolded there
        if n.op == 'num' and n.v == 1 or 'stride' not in (A.op, B.op):
            emit(('dft1', x.id), lambda: t.imp(t.eq(n, t.ONE), t.eq(t.sel(x, t.ZERO), t.sel(A if x.v == 're' else B, t.ZERO))))
        if 'stride' in (A.op, B.op):
            continue
        h = t.div(n, 2)
        for i in indices(x):
            def f(x=x, A=A, B=B, n=n, i=i):
                ev = both('dft', t.stride(A, 0), t.stride(B, 0), h)
                od = both('dft', t.stride(A, 1), t.stride(B, 1), h)
                r = []
                for j, cond, sg in ((i, t.and_(t.ge(i, t.ZERO), t.lt(i, h)), 1), (t.sub(i, h), t.and_(t.ge(i, h), t.lt(i, n)), -1)):
                    if cond is t.FALSE or sg == 1 and any(y is h for m, c in t.items(i) for y in m) or sg < 0 and t.items(j) and t.items(j)[0][1] < 0:
                        continue
                    w = t.mul(t.scale(j, -PI2), t.recip(n))
                    c, s = t.trig('cosr', w), t.trig('sinr', w)
                    e, p, q = t.sel(ev[x.v == 'im'], j), t.sel(od[0], j), t.sel(od[1], j)
                    tw = t.sub(t.mul(c, p), t.mul(s, q)) if x.v == 're' else t.add(t.mul(c, q), t.mul(s, p))
                    r.append(t.imp(t.and_(t.pow2p(n), t.ge(n, t.num(2)), cond), t.eq(t.sel(x, i), t.add(e, t.scale(tw, sg)))))
                return r
            emit(('dft', x.id, i.id), f)
    for x in by.get('idft', []):
        A, B, n = x.a
        for i in indices(x):
            def f(x=x, A=A, B=B, n=n, i=i):
                y = t.transform('dft', A, t.aneg(B), n, x.v)
                return t.imp(t.and_(t.ge(i, t.ZERO), t.lt(i, n)), t.eq(t.sel(x, i), t.scale(t.mul(t.sel(y, i), t.recip(n)), 1 if x.v == 're' else -1)))
            emit(('idft', x.id, i.id), f)
    for x in by.get('cnv', []):
        A, B, n = x.a
        opp = {i.id: i for i in sels.get(A.id, (None, []))[1] + sels.get(B.id, (None, []))[1]}
        for i in indices(x):
            for o in list(opp.values())[:12]:
                def f(x=x, A=A, B=B, n=n, i=i, o=o):
                    zr, zi, cr, ci = t.sel(A, i), t.sel(B, i), t.sel(A, o), t.sel(B, o)
                    # (z + conj c)(z - conj c) = z^2 - (conj c)^2
                    if x.v == 're':
                        v = t.add(t.mul(zr, zi), t.mul(cr, ci))
                        v = t.scale(v, t.Fraction(1, 2))
                    else:
                        v = t.sub(t.sub(t.mul(zr, zr), t.mul(zi, zi)), t.sub(t.mul(cr, cr), t.mul(ci, ci)))
                        v = t.scale(v, t.Fraction(-1, 4))
                    return t.imp(t.and_(t.ge(i, t.ZERO), t.lt(i, n), t.or_(t.and_(t.eq(i, t.ZERO), t.eq(o, t.ZERO)),
                                                                          t.and_(t.gt(i, t.ZERO), t.eq(o, t.sub(n, i))))), t.eq(t.sel(x, i), v))
                emit(('cnv', x.id, i.id, o.id), f)
    for kind in ('dft', 'idft', 'cnv'):
        for x, y in pairs(by.get(kind, [])):
            if x.v == y.v and all(p is q or (p.id, q.id) in linked for p, q in zip(x.a[:2], y.a[:2])):
                emit(('trc', x.id, y.id), lambda: t.imp(t.and_(t.eq(x.a[2], y.a[2]), t.aeqn(x.a[0], y.a[0], x.a[2]), t.aeqn(x.a[1], y.a[1], x.a[2])),
                                                        t.aeqn(x, y, x.a[2])))
    for out, inn in (('idft', 'dft'), ('dft', 'idft')):
        for x in by.get(out, []):
            for y in by.get(inn, []):
                if y.v != 're' or t.subterms([y.a[0]]).get(x.id):
                    continue
                def f(x=x, y=y):
                    P, Q, n = x.a
                    u, v = both(y.op, *y.a)
                    return t.imp(t.and_(t.ge(n, t.ONE), t.eq(n, y.a[2]), t.aeqn(P, u, n), t.aeqn(Q, v, n)), t.aeqn(x, y.a[0 if x.v == 're' else 1], n))
                emit(('inv', x.id, y.id), f)


def mono_lemmas(monos, enc, done):
    """monos: dict key->tuple of atoms. Returns list of z3 facts; monos is extended by the products the facts mention."""
    out = []
    B = Ctx.B
    ms = sorted(monos.values(), key=lambda m: tuple(y.id for y in m))

    def Z(m):
        if not m:
            return z3.IntVal(1)
        if len(m) > 1:
            used.append(m)
        return enc.mono(m)

    def emit(key, f):
        if key in done:
            return
        done.add(key)
        r = MLEM.get(key)
        if r is None:
            used.clear()
            r = (f(), list(used))
            MLEM[key] = r
        out.extend(r[0])
        for m in r[1]:
            monos[tuple(y.id for y in m)] = m

    used = []

    def single(m):
        o = []
        if any(y.s == 'R' for y in m):
            return o
        z = Z(m)
        if all(t.nonneg(y) for y in m):
            o.append(z >= 0)
            if all((t.rng(y)[0] or 0) >= 1 for y in m):
                for y in m:
                    o.append(z >= enc.e(y))
        for k in range(len(m)):
            if k and m[k] is m[k - 1]:
                continue
            x = m[k]
            rest = m[:k] + m[k + 1:]
            ex, zr = enc.e(x), Z(rest)
            rn = all(t.nonneg(y) for y in rest)
            if (t.rng(x)[0] or 0) < 1:
                o.append(z3.Implies(ex == 0, z == 0))
            o.append(z3.Implies(ex == 1, z == zr))
            if rn:
                if (t.rng(x)[0] or 0) < 1:
                    o.append(z3.Implies(ex >= 1, z >= zr))
                else:
                    o.append(z >= zr)
                if not t.nonneg(x):
                    o.append(z3.Implies(ex <= -1, z <= -zr))
                if x.op in ('sel', 'sym', 'div'):
                    o.append(z3.Implies(ex <= B - 1, z <= (B - 1) * zr))
                    o.append(z3.Implies(ex <= B - 2, z <= (B - 2) * zr))
        # V(a,s)*V(b,n) bounds
        if len(m) == 2 and all(y.op == 'V' for y in m):
            x, y = m
            px, py = t.pow_(x.a[1]), t.pow_(y.a[1])
            ex, ey = enc.e(x), enc.e(y)
            pp_ = t.mul(t.addn(px, -1), t.addn(py, -1))
            o.append(z3.Implies(z3.And(ex <= enc.e(px) - 1, ey <= enc.e(py) - 1), z <= enc.e(pp_)))
            qx, qy = t.pow_(t.addn(x.a[1], -1)), t.pow_(t.addn(y.a[1], -1))
            q = t.mul(qx, qy)
            o.append(z3.Implies(z3.And(ex >= enc.e(qx), ey >= enc.e(qy)), z >= enc.e(q)))
            for p in (pp_, q):
                for mm, c in t.items(p):
                    if len(mm) > 1:
                        used.append(mm)
        return o
    byrest = {}
    for m in ms:
        for k in range(len(m)):
            if k and m[k] is m[k - 1]:
                continue
            rest = m[:k] + m[k + 1:]
            byrest.setdefault(tuple(y.id for y in rest), (rest, []))[1].append((m[k], m))
        emit(('m',) + tuple(y.id for y in m), lambda: single(m))
    # pairs sharing a factor
    for rk, (rest, xs) in byrest.items():
        if any(y.s == 'R' for y in rest) or rest and any(m[0].s == 'R' for m in xs):
            # a product of real numbers: equal factors, equal products
            for (x, m1), (y, m2) in pairs(xs[:24]):
                if x is not y and x.s == y.s:
                    emit(('pr', x.id, y.id, rk), lambda: [z3.Implies(enc.e(x) == enc.e(y), Z(m1) == Z(m2))])
            continue
        if not rest or not all(t.nonneg(y) for y in rest):
            continue
        cand = list(xs)
        if len(cand) > 12:
            cand = cand[:12]
        for (x, m1), (y, m2) in pairs(cand):
            def pair(x=x, y=y, m1=m1, m2=m2):
                o = []
                ex, ey, zr = enc.e(x), enc.e(y), Z(rest)
                o.append(z3.Implies(ex >= ey, Z(m1) >= Z(m2)))
                o.append(z3.Implies(ex <= ey, Z(m1) <= Z(m2)))
                o.append(z3.Implies(ex >= ey + 1, Z(m1) >= Z(m2) + zr))
                o.append(z3.Implies(ex <= ey - 1, Z(m1) <= Z(m2) - zr))
                o.append(z3.Implies(ex >= B * ey, Z(m1) >= B * Z(m2)))
                o.append(z3.Implies(ey >= B * ex, Z(m2) >= B * Z(m1)))
                return o
            emit(('p', x.id, y.id, rk), pair)
    return out


def collect_monos(terms):
    d = {}
    for x in terms.values():
        if x.op == 'poly':
            for m, c in x.v[0]:
                if len(m) >= 2:
                    d[tuple(y.id for y in m)] = m
    return d


def timed_check(s):
    t0 = time.time()
    r = s.check()
    STATS['queries'] += 1
    STATS['time'] += time.time() - t0
    return r


class Path:
    """A set of hypotheses prepared for proving goals."""

    def __init__(self, hyps, simplify=True):
        self.hyps = []
        for h in hyps:
            if h.op == 'and':
                self.hyps.extend(h.a)
            elif h is not t.TRUE:
                self.hyps.append(h)
        self.subs = []      # list of (id map) applied in order
        self.false = any(h is t.FALSE for h in self.hyps)
        self.prepared = False
        self.simplify = simplify

    # -- light check used for feasibility and wrap-around queries
    def _base_solver(self):
        s = z3.Solver()
        s.set('timeout', 1500)
        enc = the_enc()
        return s, enc

    def apply(self, x):
        for m in self.subs:
            x = t.subst(x, m)
        return x

    def _facts_closure(self, roots, seen):
        """definitional facts of all atoms below roots (transitively)"""
        out = []
        work = list(roots)
        while work:
            new = t.subterms(work)
            work = []
            for x in new.values():
                if x.id in seen:
                    continue
                seen[x.id] = x
                fs = atom_facts(x)
                out.extend(fs)
                work.extend(fs)
        return out

    def prepare(self):
        if self.prepared:
            return
        self.prepared = True
        if self.false:
            return
        if self.simplify:
            for _ in range(3):
                if not self._simplify_round():
                    break
        if self.false:
            return
        self.enc = the_enc()
        self.s = z3.Solver()
        self.s.set('timeout', LIN_TIMEOUT)
        self.seen = {}
        self.done = set()
        self.mdone = set()
        self._assert(self.hyps, self.s, self.enc, self.seen, self.done, self.mdone)

    def _assert(self, fs, s, enc, seen, done, mdone, lem=True, collect=None):
        """asserts fs plus lemma instances into s; seen/done are updated"""
        work = list(fs)
        allf = list(fs)
        facts = self._facts_closure(work, seen)
        allf += facts
        if lem:
            for rnd in range(3):
                ls = lemmas(seen, done, rnd)
                if not ls:
                    break
                allf += ls
                allf += self._facts_closure(ls, seen)
        for f in allf:
            zassert(s, enc.e(f))
        if collect is not None:
            collect.extend(allf)
        if not enc.nia:
            monos = collect_monos(seen)
            for _ in range(2):
                ml = mono_lemmas(monos, enc, mdone)
                if not ml:
                    break
                for f in ml:
                    zassert(s, f)

    def _simplify_round(self):
        """find entailed equalities between index terms and constants; substitute"""
        s, enc = self._base_solver()
        seen = {}
        done = set()
        self._assert(self.hyps, s, enc, seen, done, set(), lem=True)
        r = timed_check(s)
        if r == z3.unsat:
            self.false = True
            return False
        if r != z3.sat:
            return False
        sub0 = t.subterms(self.hyps)
        idx = {}
        consts = {}
        for x in sub0.values():
            for k in IDX_OPS.get(x.op, ()):
                idx[x.a[k].id] = x.a[k]
            if x.op in ('div', 'ite', 'max2', 'min2', 'imod') and x.s == 'I':
                consts[x.id] = x
            if x.op == 'sym' and x.s == 'I':
                consts[x.id] = x
            if x.op == 'max2' or x.op == 'min2':
                for y in x.a:
                    idx[y.id] = y
                idx[x.id] = x
        model = s.model()
        changed = False
        eqs = []
        # constants
        for x in sorted(consts.values(), key=lambda x: x.id):
            if x.id not in enc.memo:
                continue
            v = model.eval(enc.e(x), model_completion=True)
            if not z3.is_int_value(v):
                continue
            s.push()
            s.add(enc.e(x) != v)
            r = timed_check(s)
            if r == z3.unsat:
                eqs.append((x, t.num(v.as_long())))
            s.pop()
        # index terms
        ii = [x for x in sorted(idx.values(), key=lambda x: x.id) if x.op != 'num']
        vals = []
        for x in ii:
            v = model.eval(enc.e(x), model_completion=True)
            vals.append(v.as_long() if z3.is_int_value(v) else None)
        groups = {}
        for x, v in zip(ii, vals):
            if v is not None:
                groups.setdefault(v, []).append(x)
        for v, xs in groups.items():
            s.push()
            s.add(enc.e(xs[0]) != v)
            isc = timed_check(s) == z3.unsat
            s.pop()
            if isc and xs[0].op != 'poly':
                eqs.append((xs[0], t.num(v)))
            elif isc:
                eqs.append((xs[0], t.num(v)))
            for a, b in pairs(xs):
                s.push()
                s.add(enc.e(a) != enc.e(b))
                r = timed_check(s)
                s.pop()
                if r == z3.unsat:
                    eqs.append((a, b))
        for a, b in eqs:
            p = self.apply_list(t.sub(a, b))
            if p.op == 'num':
                continue
            # choose an atom with unit coefficient
            best = None
            for m, c in t.items(p):
                if len(m) == 1 and c in (1, -1):
                    x = m[0]
                    if x.op not in ('sym', 'div', 'ite', 'max2', 'min2', 'imod', 'sel'):
                        continue
                    rest = t.sub(p, t.scale(x, c))
                    if x.id in t.subterms([rest]):
                        continue
                    rank = {'max2': 0, 'min2': 0, 'ite': 1, 'div': 2, 'imod': 2, 'sel': 3, 'sym': 4}[x.op]
                    # newer symbols are replaced by older ones
                    k = (rank, -x.id)
                    if best is None or k < best[0]:
                        best = (k, x, t.scale(rest, -c))
            if best is None:
                continue
            # a replaced symbol loses its type range: keep it as a fact
            for f in atom_facts(best[1]):
                self.hyps.append(f)
            m = {best[1].id: best[2]}
            self.subs.append(m)
            nh = []
            for h in self.hyps:
                h2 = t.subst(h, m)
                if h2.op == 'and':
                    nh.extend(h2.a)
                elif h2 is t.FALSE:
                    self.false = True
                    return False
                elif h2 is not t.TRUE:
                    nh.append(h2)
            self.hyps = nh
            changed = True
        return changed

    def apply_list(self, x):
        return self.apply(x)

    def feasible(self):
        """False only if the hypotheses are contradictory"""
        if self.false:
            return False
        s, enc = self._base_solver()
        s.set('timeout', 500)
        self._assert(self.hyps, s, enc, {}, set(), set(), lem=False)
        return timed_check(s) != z3.unsat

    def prove(self, goal, depth=2, deadline=None, nia=True):
        """returns (ok, info)"""
        self.prepare()
        if self.false:
            return True, 'contradictory path'
        g = self.apply(goal)
        if g is t.TRUE:
            return True, 'simplified'
        if g.op == 'and':
            for x in g.a:
                ok, info = self.prove(x, depth, deadline, nia)
                if not ok:
                    return ok, info
            return True, 'conjuncts'
        ng = t.not_(g)
        self.s.push()
        seen = dict(self.seen)
        done = set(self.done)
        mdone = set(self.mdone)
        try:
            self._assert([ng], self.s, self.enc, seen, done, mdone)
            r = timed_check(self.s)
            if r == z3.unsat:
                return True, 'linear'
            model = None
            if r == z3.sat:
                model = self.s.model()
        finally:
            self.s.pop()
        if deadline is not None and time.time() > deadline:
            return False, 'timeout'
        if depth > 0:
            # case splits
            p = self._split_on(ng, seen, model)
            if p is not None:
                for q in (p, t.not_(p)):
                    sub = Path(self.hyps + [q])
                    ok, info = sub.prove(g, depth - 1, deadline, nia)
                    if not ok:
                        break
                else:
                    return True, 'split'
        if nia and depth in (2, 0):
            s = z3.Solver()
            s.set('timeout', NIA_TIMEOUT if depth == 2 else NIA_TIMEOUT // 2)
            enc = Enc(nia=True)
            self._assert(self.hyps + [ng], s, enc, {}, set(), set())
            r2 = timed_check(s)
            if r2 == z3.unsat:
                return True, 'nonlinear'
            if r2 == z3.sat:
                return False, 'countermodel: ' + short_model(s.model(), enc, self.hyps + [ng])
        return False, 'not proved (%s)' % r

    def _split_on(self, ng, seen, model):
        roots = t.subterms(self.hyps + [ng])
        for x in sorted(roots.values(), key=lambda x: -x.id):
            if x.op in ('max2', 'min2'):
                return t.le(x.a[0], x.a[1])
        for x in sorted(roots.values(), key=lambda x: -x.id):
            if x.op == 'ite' and x.s in ('I', 'R'):
                return x.a[0]
        gs = t.subterms([ng])
        # order of index terms occurring in the goal
        idx = {}
        for x in gs.values():
            for k in IDX_OPS.get(x.op, ()):
                idx[x.a[k].id] = x.a[k]
        ii = sorted(idx.values(), key=lambda x: x.id)
        known = {h.id for h in self.hyps}
        for a, b in pairs(ii):
            for p in (t.le(a, b), t.lt(a, b)):
                if p.op in ('true', 'false') or p.id in known or t.not_(p).id in known:
                    continue
                # useful only if both sides are possible
                if Path(self.hyps + [p]).feasible() and Path(self.hyps + [t.not_(p)]).feasible():
                    return p
        return None


def short_model(model, enc, fs):
    out = []
    for x in sorted(t.subterms(fs).values(), key=lambda x: x.id):
        if x.op in ('sym', 'sel', 'V', 'pow') and x.s == 'I' and x.id in enc.memo:
            v = model.eval(enc.e(x), model_completion=True)
            out.append('%s = %s' % (t.pp(x)[:60], v))
            if len(out) > 40:
                break
    return '; '.join(out)
