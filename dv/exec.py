"""Symbolic / concrete executor for the extracted C++ functions.

One interpreter serves both purposes. In symbolic mode it emits obligations
(bounds, overflow, preconditions of callees, invariants); loops are cut by the
invariants the `loops` policy object supplies. In concrete mode everything folds
to constants and loops simply run.
"""
from . import terms as t
from .values import *
from . import smt
from .astdb import base_name, short, _strip

MAXSZ = 1 << 56
TWO53 = 1 << 53


class ConcreteFault(Exception):
    pass


class Fuel(Exception):
    pass


class Obl:
    __slots__ = ('kind', 'label', 'loc', 'pc', 'goal', 'path', 'tags', 'site')

    def __init__(self, kind, label, loc, pc, goal, path='', tags=(), site=None):
        self.kind, self.label, self.loc, self.pc, self.goal, self.path, self.tags, self.site = kind, label, loc, pc, goal, path, tags, site


class State:
    __slots__ = ('store', 'pc', 'env', 'this', 'cp', 'scopes', 'exc', 'trail')

    def __init__(self):
        self.store = {}
        self.pc = ()
        self.env = {}
        self.this = None
        self.cp = ()
        self.scopes = [[]]
        self.exc = ()
        self.trail = ()

    def clone(self):
        s = State()
        s.store = dict(self.store)
        s.pc = self.pc
        s.env = dict(self.env)
        s.this = self.this
        s.cp = self.cp
        s.scopes = [list(x) for x in self.scopes]
        s.exc = self.exc
        s.trail = self.trail
        return s

    def assume(self, c):
        if c is not t.TRUE:
            self.pc = self.pc + (c,)


class Quick:
    """persistent encoder for cheap feasibility / entailment queries"""

    def __init__(self):
        self.enc = smt.Enc()
        self.cache = {}
        self.facts = {}

    def _facts(self, fs):
        seen = {}
        out = []
        work = list(fs)
        while work:
            new = t.subterms(work)
            work = []
            for x in new.values():
                if x.id in seen:
                    continue
                seen[x.id] = x
                af = self.facts.get(x.id)
                if af is None:
                    af = smt.atom_facts(x)
                    self.facts[x.id] = af
                out.extend(af)
                work.extend(af)
        return out

    def unsat(self, fs):
        key = tuple(sorted({f.id for f in fs}))
        r = self.cache.get(key)
        if r is None:
            if any(f is t.FALSE for f in fs):
                r = True
            else:
                s = smt.z3.Solver()
                s.set('rlimit', 3000000)
                s.set('timeout', 20000)
                for f in fs:
                    s.add(self.enc.e(f))
                for f in self._facts(fs):
                    s.add(self.enc.e(f))
                r = smt.timed_check(s) == smt.z3.unsat
            self.cache[key] = r
        return r


BUILTIN_EXC = {
    'std::bad_alloc': ['std::exception'], 'std::length_error': ['std::logic_error'],
    'std::logic_error': ['std::exception'], 'std::out_of_range': ['std::logic_error'],
    'std::runtime_error': ['std::exception'], 'std::overflow_error': ['std::runtime_error'],
    'std::range_error': ['std::runtime_error'], 'std::invalid_argument': ['std::logic_error'],
    'std::domain_error': ['std::logic_error'], 'std::underflow_error': ['std::runtime_error'],
    'std::exception': [], 'std::bad_array_new_length': ['std::bad_alloc'],
}


class Exec:
    def __init__(self, db, mode='sym', fault=False, specs=None, loops=None, fuel=200000):
        self.db = db
        self.sym = mode == 'sym'
        self.fault = fault
        self.specs = specs
        self.loops = loops
        self.obls = []
        self.fresh_n = 0
        self.cells = 0
        self.meta = {}
        self.types = {}
        self.fuel = fuel
        self.quick = Quick() if self.sym else None
        self.quiet = 0          # >0: obligations are not recorded (loop analysis)
        self.used = set()       # contracts used
        self.inlined = set()
        self.top = None
        self.assumed = set()    # assumed builtins
        self.depth = 0
        self.gcache = {}
        self.excn = 0
        self.curfn = None
        self.conc_faults = []
        self.real = False       # doubles are taken as real numbers (see C19)

    # ------------------------------------------------------------ helpers
    def fresh(self, base, lo=None, hi=None, sort='I'):
        self.fresh_n += 1
        return t.sym('%s!%d' % (base, self.fresh_n), lo, hi, sort)

    def cell(self, st, key, val, scope=True, ty=None):
        self.cells += 1
        c = self.cells
        self.meta[c] = (st.cp, key)
        if ty is not None:
            self.types[c] = ty
        st.store[c] = val
        if scope:
            st.scopes[-1].append(c)
        return c

    def oblige(self, st, kind, goal, loc='', label='', tags=(), site=None):
        if not self.sym:
            if goal is t.TRUE:
                return
            if goal is t.FALSE:
                raise ConcreteFault('%s: %s at %s' % (kind, label, loc))
            raise ConcreteFault('non-constant obligation %s %s' % (kind, label))
        if not self.quiet:
            self.obls.append(Obl(kind, label, loc, st.pc, goal, st.trail, tags, site))
        st.assume(goal)

    # -------------------------------------------------------------- types
    def elem_leaves(self, et):
        k = et['k']
        if k in ('int', 'enum'):
            return {(): et['w']}
        if k == 'bool':
            return {(): 1}
        if k == 'float':
            return {(): 0}
        if k == 'rec':
            if et['b'] == 'std::complex':
                return {('re',): 0, ('im',): 0}
            r = self.db.records.get(et['n'])
            if r and 'f' in r and not r.get('bases'):
                out = {}
                for f in r['f']:
                    for p, w in self.elem_leaves(f['t']).items():
                        out[(f['n'],) + p] = w
                return out
        raise Refuse('element type %s' % et.get('n', k))

    def elem_get(self, vec, idx):
        return self._eg(vec.et, vec.arrs, (), idx)

    def _eg(self, et, arrs, pre, idx):
        k = et['k']
        if k in ('int', 'enum', 'float'):
            return t.sel(arrs[pre], idx)
        if k == 'bool':
            return t.i2b(t.sel(arrs[pre], idx))
        if et['b'] == 'std::complex':
            return RecV(et['n'], {'re': t.sel(arrs[pre + ('re',)], idx), 'im': t.sel(arrs[pre + ('im',)], idx)})
        r = self.db.records[et['n']]
        return RecV(et['n'], {f['n']: self._eg(f['t'], arrs, pre + (f['n'],), idx) for f in r['f']})

    def elem_leafvals(self, et, v, pre=()):
        k = et['k']
        if k in ('int', 'enum', 'float'):
            return {pre: v}
        if k == 'bool':
            return {pre: t.b2i(v)}
        out = {}
        for n, x in v.f.items():
            if isinstance(x, RecV):
                r = self.db.records[et['n']]
                ft = [f for f in r['f'] if f['n'] == n][0]['t']
                out.update(self.elem_leafvals(ft, x, pre + (n,)))
            else:
                out[pre + (n,)] = x
        return out

    def elem_set(self, vec, idx, v):
        lv = self.elem_leafvals(vec.et, v)
        return vec.upd(arrs={p: t.store(a, idx, lv[p]) for p, a in vec.arrs.items()})

    def zero_elem(self, et):
        k = et['k']
        if k in ('int', 'enum', 'float'):
            return t.ZERO
        if k == 'bool':
            return t.FALSE
        if et['b'] == 'std::complex':
            return RecV(et['n'], {'re': t.ZERO, 'im': t.ZERO})
        r = self.db.records[et['n']]
        return RecV(et['n'], {f['n']: self.zero_elem(f['t']) for f in r['f']})

    def empty_vec(self, et):
        if self.sym:
            return VecV(t.ZERO, {p: t.fill(t.ZERO, w) for p, w in self.elem_leaves(et).items()}, et)
        return VecV(t.ZERO, {p: t.carr((), w) for p, w in self.elem_leaves(et).items()}, et)

    def fresh_val(self, ty, base='x'):
        k = ty['k']
        if k == 'int':
            if ty['s']:
                h = 1 << (ty['w'] - 1)
                return self.fresh(base, -h, h - 1)
            return self.fresh(base, 0, (1 << ty['w']) - 1)
        if k == 'enum':
            vs = [int(v) for _, v in ty['vals']]
            return self.fresh(base, min(vs), max(vs))
        if k == 'bool':
            return self.fresh(base, sort='B')
        if k == 'float':
            return self.fresh(base, sort='R')
        if k == 'rec':
            if ty['b'] == 'std::vector':
                et = ty['a'][0]
                self.fresh_n += 1
                n = self.fresh_n
                return VecV(t.sym('%s.size!%d' % (base, n), 0, MAXSZ),
                            {p: t.asym('%s%s!%d' % (base, ''.join('.' + q for q in p), n), w)
                             for p, w in self.elem_leaves(et).items()}, et)
            if ty['b'] == 'std::complex':
                return RecV(ty['n'], {'re': self.fresh(base + '.re', sort='R'), 'im': self.fresh(base + '.im', sort='R')})
            if ty['b'] == 'std::basic_ostream':
                self.fresh_n += 1
                return t.osym('%s!%d' % (base, self.fresh_n))
            r = self.db.records.get(ty['n'])
            if r and 'f' in r and not r.get('bases'):
                return RecV(ty['n'], {f['n']: self.fresh_val(f['t'], base + '.' + f['n']) for f in r['f']})
        raise Refuse('fresh value of type %s' % ty.get('n', k))

    # -------------------------------------------------------------- memory
    def load(self, st, loc, where=''):
        v = st.store.get(loc.cell)
        if v is None:
            if loc.cell not in st.store:
                raise Refuse('dangling reference')
        for k, p in loc.path:
            if k == 'f':
                if not isinstance(v, RecV) or p not in v.f:
                    raise Refuse('field %s' % p)
                v = v.f[p]
            else:
                v = self.elem_get(v, p)
        if v is None:
            # an uninitialised scalar
            self.oblige(st, 'uninitialised', t.FALSE, where, 'read of an uninitialised variable')
            raise Refuse('uninitialised read')
        return v

    def save(self, st, loc, v):
        st.store[loc.cell] = self._save(st.store.get(loc.cell), loc.path, v)

    def _save(self, cur, path, v):
        if not path:
            return v
        k, p = path[0]
        if k == 'f':
            return cur.set(p, self._save(cur.f.get(p), path[1:], v))
        e = v if len(path) == 1 else self._save(self.elem_get(cur, p), path[1:], v)
        return self.elem_set(cur, p, e)

    # ------------------------------------------------------------ branching
    def feasible(self, st):
        if not self.sym:
            return True
        return not self.quick.unsat(st.pc)

    def branch(self, st, c, where='', tag=''):
        """list of (state, bool)"""
        if c is t.TRUE:
            return [(st, True)]
        if c is t.FALSE:
            return [(st, False)]
        if not self.sym:
            raise ConcreteFault('symbolic branch in concrete mode: %s' % c)
        out = []
        s2 = st.clone()
        st.assume(c)
        nc = t.not_(c)
        s2.assume(nc)
        f1 = self.feasible(st)
        f2 = self.feasible(s2)
        if f1:
            if f2:
                st.trail = st.trail + ('%s:T' % tag,)
            out.append((st, True))
        if f2:
            if f1:
                s2.trail = s2.trail + ('%s:F' % tag,)
            out.append((s2, False))
        return out

    def entailed(self, st, c):
        if c is t.TRUE:
            return True
        if c is t.FALSE or not self.sym:
            return False
        return self.quick.unsat(st.pc + (t.not_(c),))

    def wrapx(self, st, x, w, signed):
        """value of x converted to an integer type"""
        r = t.wrap(x, w, signed)
        if r is x or r.op == 'num' or not self.sym:
            return r
        if signed:
            h = 1 << (w - 1)
            lo, hi = -h, h - 1
        else:
            lo, hi = 0, (1 << w) - 1
        if x.s == 'I' and self.entailed(st, t.and_(smt.mk_le0(t.sub(t.num(lo), x)), smt.mk_le0(t.sub(x, t.num(hi))))):
            return x
        return r

    # ------------------------------------------------------------- numbers
    def arith(self, st, op, a, b, ty, loc, uns=None):
        k = ty['k']
        if k == 'float':
            r = self.farith(st, op, a, b, loc)
            return self.single(r) if ty.get('w') == 32 else r
        w, s = ty['w'], ty.get('s', False)
        if a.s == 'B':
            a = t.b2i(a)
        if b.s == 'B':
            b = t.b2i(b)
        if op in ('+', '-', '*'):
            r = t.add(a, b) if op == '+' else t.sub(a, b) if op == '-' else t.mul(a, b)
            if s:
                self.inrange(st, r, w, loc, 'signed overflow in %s' % op)
                return r
            return self.wrapx(st, r, w, False)
        if op in ('/', '%'):
            self.oblige(st, 'division by zero', t.ne(b, t.ZERO), loc, 'divisor of %s' % op)
            if s:
                # C truncation; only for constants and non-negative operands
                if a.op == 'num' and b.op == 'num':
                    if b.v == 0:
                        raise ConcreteFault('division by zero')
                    q = abs(a.v) // abs(b.v)
                    if (a.v < 0) != (b.v < 0):
                        q = -q
                    self.inrange(st, t.num(q), w, loc, 'signed overflow in /')
                    return t.num(q) if op == '/' else t.num(a.v - q * b.v)
                if not (self.entailed(st, t.ge(a, t.ZERO)) and self.entailed(st, t.ge(b, t.ZERO))):
                    raise Refuse('signed division of possibly negative values')
            return t.idiv(a, b) if op == '/' else t.imod(a, b)
        if op in ('<<', '>>'):
            self.oblige(st, 'shift range', t.and_(t.ge(b, t.ZERO), t.lt(b, t.num(w))), loc, 'shift amount')
            if op == '>>':
                if not t.nonneg(a) and not self.entailed(st, t.ge(a, t.ZERO)):
                    if a.op == 'num' and b.op == 'num':
                        return t.num(a.v >> b.v)
                    raise Refuse('right shift of a possibly negative value')
                return t.shr(a, b)
            r = t.shl(a, b)
            if s:
                # C++11: value must be representable in the unsigned type (DR1457), we require the signed
                # result to be obtained by conversion from it
                if not (a.op == 'num' and b.op == 'num'):
                    if not t.nonneg(a) and not self.entailed(st, t.ge(a, t.ZERO)):
                        raise Refuse('left shift of a possibly negative value')
                    if r.op == 'shl':
                        return t.shlw(a, b, w, True)
                self.oblige(st, 'shift overflow', t.and_(t.ge(r, t.ZERO), t.lt(r, t.num(1 << w))), loc, 'left shift of a signed value')
                return t.wrap(r, w, True)
            if r.op == 'shl':
                return t.shlw(a, b, w, False)
            return self.wrapx(st, r, w, False)
        if op in ('&', '|', '^'):
            if not ((t.nonneg(a) or self.entailed(st, t.ge(a, t.ZERO))) and (t.nonneg(b) or self.entailed(st, t.ge(b, t.ZERO)))):
                if a.op == 'num' and b.op == 'num':
                    return t.num({'&': a.v & b.v, '|': a.v | b.v, '^': a.v ^ b.v}[op])
                raise Refuse('bit operation on possibly negative values')
            return t.bitop({'&': 'band', '|': 'bor', '^': 'bxor'}[op], a, b)
        raise Refuse('operator %s' % op)

    def inrange(self, st, r, w, loc, label):
        h = 1 << (w - 1)
        lo, hi = t.rng(r)
        if lo is not None and hi is not None and lo >= -h and hi < h:
            return
        self.oblige(st, 'signed overflow', t.and_(t.le(t.num(-h), r), t.le(r, t.num(h - 1))), loc, label)

    def farith(self, st, op, a, b, loc):
        """IEEE double arithmetic: exact on small integers, else within half an ulp (unknown
        for * and / of unknowns). In the real interpretation: the operation on real numbers."""
        if self.real:
            return self.rarith(op, a, b)
        if a.op == 'num' and b.op == 'num':
            x, y = a.v, b.v
            if op == '/' and y == 0:
                return t.sym('nan', sort='R')
            from fractions import Fraction
            r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: Fraction(x) / Fraction(y)}[op]()
            f = float(r)
            return t.num(Fraction(f) if f == f and abs(f) != float('inf') else r)
        if op in ('+', '-'):
            r = t.add(a, b) if op == '+' else t.sub(a, b)
            lo, hi = t.rng(r)
            if r.s == 'I' and lo is not None and hi is not None and -TWO53 <= lo and hi <= TWO53:
                return r
            if r.s == 'I' and self.entailed(st, t.and_(t.le(t.num(-TWO53), r), t.le(r, t.num(TWO53)))):
                return r
            # |result - r| <= 2^-53 |r|
            f = self.fresh('fl', sort='R')
            k = t.num(__import__('fractions').Fraction(1, TWO53))
            if r.s == 'I':
                st.assume(t.imp(t.and_(t.le(t.num(-TWO53), r), t.le(r, t.num(TWO53))), t.eq(f, r)))
            d = t.sub(f, r)
            m = self.fresh('abs', sort='R')
            st.assume(t.or_(t.eq(m, r), t.eq(m, t.neg(r))))
            st.assume(t.ge(m, t.ZERO))
            st.assume(t.le(d, t.mul(m, k)))
            st.assume(t.le(t.neg(d), t.mul(m, k)))
            self.assumed.add('IEEE-754 double addition is correctly rounded')
            return f
        self.assumed.add('double * and / yield some double (no property depends on the value)')
        return self.fresh('fl', sort='R')

    def rarith(self, op, a, b):
        self.assumed.add(REAL)
        if op == '+':
            return t.add(a, b)
        if op == '-':
            return t.sub(a, b)
        if op == '*':
            return t.mul(a, b)
        if op == '/':
            if b.op == 'num' and b.v == 0:
                return self.fresh('quotient', sort='R')
            return t.mul(a, t.recip(b))
        raise Refuse('operator %s on real numbers' % op)

    def compare(self, op, a, b):
        if a.s == 'B' and b.s == 'B':
            if op == '==':
                return t.iff(a, b)
            if op == '!=':
                return t.not_(t.iff(a, b))
            a, b = t.b2i(a), t.b2i(b)
        if a.s == 'B':
            a = t.b2i(a)
        if b.s == 'B':
            b = t.b2i(b)
        return {'==': t.eq, '!=': t.ne, '<': t.lt, '<=': t.le, '>': t.gt, '>=': t.ge}[op](a, b)

    # --------------------------------------------------------- expressions
    def ev(self, st, e):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        m = getattr(self, 'e_' + e['e'], None)
        if m is None:
            raise Refuse('expression %s at %s' % (e.get('cls', e['e']), e.get('l')))
        return m(st, e)

    def bind(self, rs, f):
        out = []
        for s, v in rs:
            if isinstance(v, Thrown):
                out.append((s, v))
            else:
                out.extend(f(s, v))
        return out

    def evs(self, st, es):
        """evaluate a list left to right"""
        rs = [(st, [])]
        for e in es:
            nr = []
            for s, vs in rs:
                if isinstance(vs, Thrown):
                    nr.append((s, vs))
                    continue
                for s2, v in self.ev(s, e):
                    nr.append((s2, v if isinstance(v, Thrown) else vs + [v]))
            rs = nr
        return rs

    def rval(self, st, v, where=''):
        """a value from a value or a location"""
        return self.load(st, v, where) if isinstance(v, Loc) else v

    def e_int(self, st, e):
        return [(st, t.num(int(e['v'])))]

    def e_bool(self, st, e):
        return [(st, t.boolt(e['v']))]

    def e_flt(self, st, e):
        from fractions import Fraction
        return [(st, t.num(Fraction(float(e['v']))))]

    def e_str(self, st, e):
        return [(st, StrV(e['v']))]

    def e_nullptr(self, st, e):
        return [(st, PtrV(None))]

    def e_fn(self, st, e):
        return [(st, FnV(e['f']))]

    def e_zero(self, st, e):
        return [(st, self.zero_of(e['t']))]

    def zero_of(self, ty):
        k = ty['k']
        if k in ('int', 'enum', 'float'):
            return t.ZERO
        if k == 'bool':
            return t.FALSE
        if k == 'ptr':
            return PtrV(None)
        if k == 'rec':
            if ty['b'] == 'std::vector':
                return self.empty_vec(ty['a'][0])
            return self.zero_elem(ty)
        raise Refuse('zero of %s' % k)

    def e_this(self, st, e):
        return [(st, PtrV(st.this))]

    @staticmethod
    def is_const(v):
        if isinstance(v, RecV):
            return all(Exec.is_const(x) for x in v.f.values())
        return isinstance(v, t.T) and v.op in ('num', 'true', 'false')

    def global_value(self, st, e):
        gid = str(e['id'])
        if gid in self.gcache:
            return self.gcache[gid]
        g = self.db.globals.get(gid)
        if not g:
            raise Refuse('global %s' % e.get('n'))
        if g.get('sys'):
            raise Refuse('system global %s' % g['n'])
        if not g['t'].get('c') or 'x' not in g:
            raise Refuse('mutable global %s' % g['n'])
        s = State()
        q = self.quiet
        rs = self.ev(s, g['x'])
        if len(rs) != 1 or isinstance(rs[0][1], Thrown):
            raise Refuse('global initialiser %s' % g['n'])
        v = rs[0][1]
        if not self.is_const(v):
            raise Refuse('global %s is not a constant' % g['n'])
        self.gcache[gid] = v
        return v

    def e_ref(self, st, e):
        i = e['id']
        b = st.env.get(i)
        if b is not None:
            return [(st, b)]
        if e.get('n') in ('cout', 'cerr', 'clog') and e.get('global'):
            # standard streams: output nobody specified about
            key = ('stream', e['n'])
            for c, k in list(self.meta.items()):
                if k[1] == key and c in st.store:
                    return [(st, Loc(c))]
            cp, st.cp = st.cp, ()
            c = self.cell(st, key, t.osym(e['n']) if self.sym else t.cout(()), scope=False)
            st.cp = cp
            return [(st, Loc(c))]
        v = self.global_value(st, e)
        # constants live in a cell so that references to them work
        c = self.cell(st, ('const', i), v)
        return [(st, Loc(c))]

    def e_mem(self, st, e):
        def f(s, v):
            if isinstance(v, PtrV):
                if v.loc is None:
                    raise Refuse('null pointer member access')
                return [(s, v.loc.f(e['f']))]
            if isinstance(v, Loc):
                return [(s, v.f(e['f']))]
            if isinstance(v, RecV):
                return [(s, v.f[e['f']])]
            if isinstance(v, IterV):
                return [(s, self.deref(s, v, e.get('l')).f(e['f']))]
            raise Refuse('member access')
        return self.bind(self.ev(st, e['x']), f)

    def deref(self, st, it, where):
        if isinstance(it, PtrV):
            if it.loc is None:
                self.oblige(st, 'null dereference', t.FALSE, where, 'null pointer')
                raise Refuse('null pointer')
            return it.loc
        if isinstance(it, IterV):
            idx = t.addn(t.neg(it.idx), -1) if it.rev else it.idx
            if it.rev:
                # reverse iterators: idx counts down from base; stored as position p, refers to p-1
                idx = t.addn(it.idx, -1)
            vec = self.load(st, it.base)
            self.oblige(st, 'bounds', t.and_(t.ge(idx, t.ZERO), t.lt(idx, vec.size)), where, 'dereference within the container')
            return it.base.i(idx)
        raise Refuse('dereference')

    def e_un(self, st, e):
        op = e['op']
        ty = e['t']
        if op in ('++', '--'):
            def f(s, l):
                if not isinstance(l, Loc):
                    raise Refuse('++ on a value')
                old = self.load(s, l, e.get('l'))
                if isinstance(old, IterV):
                    d = 1 if op == '++' else -1
                    if old.rev:
                        d = -d
                    new = IterV(old.base, t.addn(old.idx, d), old.rev)
                else:
                    tt = e['x']['t']
                    if tt['k'] not in ('int',):
                        raise Refuse('++ on %s' % tt['k'])
                    r = t.addn(old, 1 if op == '++' else -1)
                    if tt['s']:
                        # promoted to int first when narrower
                        if tt['w'] >= 32:
                            self.inrange(s, r, tt['w'], e.get('l'), 'signed overflow in ' + op)
                        new = self.wrapx(s, r, tt['w'], True)
                    else:
                        new = self.wrapx(s, r, tt['w'], False)
                self.save(s, l, new)
                return [(s, old if e.get('post') else l)]
            return self.bind(self.ev(st, e['x']), f)
        if op == '&':
            return self.bind(self.ev(st, e['x']), lambda s, l: [(s, PtrV(l))])
        if op == '*':
            return self.bind(self.ev(st, e['x']), lambda s, p: [(s, self.deref(s, p, e.get('l')))])

        def g(s, v):
            v = self.rval(s, v)
            if op == '!':
                return [(s, t.not_(v))]
            if op == '+':
                return [(s, v)]
            if op == '-':
                if ty['k'] == 'float':
                    return [(s, t.neg(v))]
                if ty['s']:
                    self.inrange(s, t.neg(v), ty['w'], e.get('l'), 'negation')
                    return [(s, t.neg(v))]
                return [(s, self.wrapx(s, t.neg(v), ty['w'], False))]
            if op == '~':
                if ty['s']:
                    return [(s, t.addn(t.neg(v), -1))]
                return [(s, t.sub(t.num((1 << ty['w']) - 1), v))]
            raise Refuse('unary %s' % op)
        return self.bind(self.ev(st, e['x']), g)

    def e_bin(self, st, e):
        op = e['op']
        if op == '=':
            # evaluation order of scalar assignment is unspecified in C++11; both sides are side-effect
            # free or independent here, we evaluate right then left (gcc order for class types)
            def f(s, vs):
                r, l = vs
                r = self.rval(s, r)
                if not isinstance(l, Loc):
                    raise Refuse('assignment to a value')
                self.save(s, l, r)
                return [(s, l)]
            return self.bind(self.evs(st, [e['b'], e['a']]), f)
        if op in ('&&', '||'):
            def f(s, a):
                out = []
                for s2, b in self.branch(s, a, e.get('l'), e['_n']):
                    if b == (op == '||'):
                        out.append((s2, t.boolt(b)))
                    else:
                        out.extend(self.ev(s2, e['b']))
                return out
            return self.bind(self.ev(st, e['a']), f)
        if op == ',':
            return self.bind(self.ev(st, e['a']), lambda s, _: self.ev(s, e['b']))

        def f(s, vs):
            a, b = vs
            return [(s, self.binop(s, op, self.rval(s, a), self.rval(s, b), e['t'], e.get('l')))]
        return self.bind(self.evs(st, [e['a'], e['b']]), f)

    def binop(self, s, op, a, b, ty, loc):
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if isinstance(a, IterV) and isinstance(b, IterV):
                return self.itercmp(s, op, a, b)
            if isinstance(a, PtrV) and isinstance(b, PtrV) and op in ('==', '!='):
                # alias variants are verified separately: distinct parameters are distinct objects
                return t.boolt((a.loc == b.loc) == (op == '=='))
            if isinstance(a, t.T) and isinstance(b, t.T):
                return self.compare(op, a, b)
            raise Refuse('comparison')
        if isinstance(a, IterV) and isinstance(b, t.T) and op in ('+', '-'):
            return IterV(a.base, t.add(a.idx, b) if (op == '+') != a.rev else t.sub(a.idx, b), a.rev)
        if isinstance(a, IterV) and isinstance(b, IterV) and op == '-':
            return t.sub(b.idx, a.idx) if a.rev else t.sub(a.idx, b.idx)
        if isinstance(a, t.T) and isinstance(b, t.T):
            return self.arith(s, op, a, b, ty, loc)
        raise Refuse('operands of %s' % op)

    def itercmp(self, s, op, a, b):
        if a.base != b.base or a.rev != b.rev:
            raise Refuse('comparison of iterators of different containers')
        x, y = (b.idx, a.idx) if a.rev else (a.idx, b.idx)
        return self.compare(op, x, y)

    def e_casg(self, st, e):
        def f(s, vs):
            r, l = vs
            r = self.rval(s, r)
            cur = self.load(s, l, e.get('l'))
            if isinstance(cur, IterV):
                new = self.binop(s, e['op'], cur, r, e['ct'], e.get('l'))
            else:
                x = self.convert(s, cur, e['a']['t'], e['clt'], e.get('l'))
                x = self.arith(s, e['op'], x, r, e['ct'], e.get('l'))
                new = self.convert(s, x, e['ct'], e['a']['t'], e.get('l'))
            self.save(s, l, new)
            return [(s, l)]
        return self.bind(self.evs(st, [e['b'], e['a']]), f)

    def e_cond(self, st, e):
        def f(s, c):
            out = []
            for s2, b in self.branch(s, c, e.get('l'), e['_n']):
                out.extend(self.ev(s2, e['a'] if b else e['b']))
            return out
        return self.bind(self.ev(st, e['c']), f)

    def convert(self, s, v, fr, to, loc=''):
        fk, tk = fr['k'], to['k']
        if tk == 'bool':
            return v if v.s == 'B' else t.i2b(v)
        if v.s == 'B':
            v = t.b2i(v)
        if tk in ('int', 'enum'):
            if fk == 'float':
                return self.f2i(s, v, to, loc)
            return self.wrapx(s, v, to['w'], to.get('s', False))
        if tk == 'float':
            v = v if fk == 'float' else self.i2f(s, v)
            return self.single(v) if to.get('w') == 32 and fr.get('w') != 32 else v
        raise Refuse('conversion to %s' % tk)

    def single(self, v):
        """single precision: any value, unless it is known"""
        if v.op == 'num':
            import struct
            from fractions import Fraction
            try:
                return t.num(Fraction(struct.unpack('f', struct.pack('f', float(v.v)))[0]))
            except OverflowError:
                return v
        lo, hi = t.rng(v)
        if v.s == 'I' and lo is not None and hi is not None and lo >= -(1 << 24) and hi <= 1 << 24:
            return v
        return self.fresh('single', sort='R')

    def i2f(self, s, v):
        if self.real:
            self.assumed.add(REAL)
            return v
        lo, hi = t.rng(v)
        if v.op == 'num':
            from fractions import Fraction
            return t.num(Fraction(float(v.v)))
        if lo is not None and hi is not None and lo >= -TWO53 and hi <= TWO53:
            return v
        if self.entailed(s, t.and_(t.le(t.num(-TWO53), v), t.le(v, t.num(TWO53)))):
            return v
        f = self.fresh('i2f', sort='R')
        # correctly rounded: bounded by the rounding of the range
        if lo is not None:
            s.assume(t.ge(f, t.num(int(float(lo)))))
        if hi is not None:
            s.assume(t.le(f, t.num(int(float(hi)))))
        return f

    def f2i(self, s, v, to, loc):
        h = 1 << (to['w'] - 1)
        lo, hi = (-h, h - 1) if to.get('s') else (0, (1 << to['w']) - 1)
        if v.op == 'num':
            x = int(v.v)
            if not lo <= x <= hi:
                self.oblige(s, 'float conversion', t.FALSE, loc, 'value out of range of the integer type')
                raise ConcreteFault('float conversion')
            return t.num(x)
        # truncation towards zero must be in range: lo-1 < v < hi+1
        self.oblige(s, 'float conversion', t.and_(t.lt(t.num(lo - 1), v), t.lt(v, t.num(hi + 1))), loc,
                    'value in range of the integer type')
        if v.s == 'I':
            return v
        fl = t.floor_(v)
        # negative non-integers truncate upwards
        r = self.fresh('trunc', lo, hi)
        s.assume(t.imp(t.ge(v, t.ZERO), t.eq(r, fl)))
        s.assume(t.imp(t.lt(v, t.ZERO), t.or_(t.eq(r, fl), t.eq(r, t.addn(fl, 1)))))
        return r

    def e_cast(self, st, e):
        ck = e['ck']
        if ck == 'LValueToRValue':
            return self.bind(self.ev(st, e['x']), lambda s, v: [(s, self.rval(s, v, e.get('l')))])
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'ArrayToPointerDecay', 'FunctionToPointerDecay',
                  'DerivedToBase', 'UncheckedDerivedToBase', 'BuiltinFnToFnPtr'):
            if ck == 'ArrayToPointerDecay':
                def g(s, v):
                    if isinstance(v, StrV):
                        return [(s, v)]
                    if isinstance(v, Loc):
                        return [(s, IterV(v, t.ZERO))]
                    raise Refuse('array decay')
                return self.bind(self.ev(st, e['x']), g)
            return self.ev(st, e['x'])
        if ck == 'ToVoid':
            return self.ev(st, e['x'])
        if ck == 'NullToPointer':
            return [(st, PtrV(None))]
        fr, to = e['x']['t'], e['t']
        if ck in ('IntegralCast', 'IntegralToBoolean', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'):
            def f(s, v):
                v = self.rval(s, v, e.get('l'))
                if not isinstance(v, t.T):
                    raise Refuse('cast of %r' % (v,))
                return [(s, self.convert(s, v, fr, to, e.get('l')))]
            return self.bind(self.ev(st, e['x']), f)
        if ck == 'FloatingToBoolean':
            return self.bind(self.ev(st, e['x']), lambda s, v: [(s, t.ne(self.rval(s, v), t.ZERO))])
        if ck == 'PointerToBoolean':
            return self.bind(self.ev(st, e['x']), lambda s, v: [(s, t.boolt(getattr(v, 'loc', True) is not None))])
        raise Refuse('cast %s at %s' % (ck, e.get('l')))

    def e_mat(self, st, e):
        def f(s, v):
            if isinstance(v, Loc):
                return [(s, v)]
            c = self.cell(s, ('tmp', e['_n']), v)
            return [(s, Loc(c))]
        return self.bind(self.ev(st, e['x']), f)

    def e_init(self, st, e):
        ty = e['t']
        if ty['k'] in ('int', 'bool', 'enum', 'float', 'ptr'):
            if not e['args']:
                return [(st, self.zero_of(ty))]
            return self.bind(self.ev(st, e['args'][0]), lambda s, v: [(s, self.rval(s, v))])
        if ty['k'] == 'array':
            def f(s, vs):
                et = ty['t']
                if et['k'] == 'ptr' or not vs:
                    # arrays of strings and the like: opaque
                    return [(s, OpaqueV('array'))]
                vec = VecV(t.num(len(vs)), self.const_arrs(s, et, [self.rval(s, v) for v in vs]), et)
                return [(s, vec)]
            return self.bind(self.evs(st, e['args']), f)
        if ty['k'] == 'rec':
            r = self.db.records.get(ty['n'])
            if r and 'f' in r and not r['bases']:
                def f(s, vs):
                    return [(s, RecV(ty['n'], {fd['n']: self.rval(s, v) for fd, v in zip(r['f'], vs)}))]
                return self.bind(self.evs(st, e['args']), f)
        if len(e['args']) == 1:
            return self.ev(st, e['args'][0])
        raise Refuse('init list of %s' % ty.get('n', ty['k']))

    def const_arrs(self, s, et, vals):
        lv = [self.elem_leafvals(et, v) for v in vals]
        out = {}
        for p, w in self.elem_leaves(et).items():
            xs = [l[p] for l in lv]
            if all(x.op == 'num' for x in xs) and not self.sym:
                out[p] = t.carr([x.v for x in xs], w)
            else:
                a = t.fill(t.ZERO, w)
                for i, x in enumerate(xs):
                    a = t.store(a, t.num(i), x)
                out[p] = a
        return out

    def e_stdinit(self, st, e):
        def f(s, v):
            if isinstance(v, VecV):
                v = Loc(self.cell(s, ('il', e['_n']), v))
            if not isinstance(v, Loc):
                raise Refuse('initializer_list')
            return [(s, ILV(v))]
        return self.bind(self.ev(st, e['x']), f)

    def e_lambda(self, st, e):
        caps = {}
        this = None
        rs = [(st, None)]
        for c in e['caps']:
            if c.get('this'):
                this = st.this
            elif 'id' in c:
                b = st.env.get(c['id'])
                if b is None:
                    continue      # constants are found through their definition
                if c.get('byref'):
                    caps[c['id']] = ('ref', b)
                else:
                    caps[c['id']] = ('val', self.rval(st, b))
            else:
                raise Refuse('lambda capture')
        return [(st, LamV(e['fid'], caps, this))]

    def e_throw(self, st, e):
        if e['x'] is None:
            if not st.exc:
                raise Refuse('rethrow without exception')
            return [(st, st.exc[-1])]

        def f(s, v):
            ty = e['x']['t']
            self.excn += 1
            return [(s, Thrown(ty.get('n', ty['k']), 'x%d' % self.excn))]
        return self.bind(self.ev(st, e['x']), f)

    def e_sub(self, st, e):
        def f(s, vs):
            a, i = vs
            i = self.rval(s, i)
            if isinstance(a, IterV):
                if isinstance(s.store.get(a.base.cell), OpaqueV):
                    return [(s, OpaqueV('elem'))]
                return [(s, self.deref(s, IterV(a.base, t.add(a.idx, i)), e.get('l')))]
            raise Refuse('subscript')
        return self.bind(self.evs(st, [e['x'], e['i']]), f)

    # --------------------------------------------------------------- calls
    def e_ctor(self, st, e):
        f = e['f']
        cls = f['cls']
        if f.get('sys') or self.db.records.get(cls['n'], {}).get('sys'):
            return self.bind(self.evs(st, e['args']), lambda s, vs: self.sys_ctor(s, e, f, cls, vs))
        if f.get('def') and f.get('ctor') in ('copy', 'move'):
            return self.bind(self.evs(st, e['args']), lambda s, vs: [(s, self.rval(s, vs[0]))])
        return self.bind(self.evs(st, e['args']), lambda s, vs: self.user_ctor(s, e, f, cls, vs))

    def user_ctor(self, st, e, f, cls, vs):
        fn = self.db.fn(f['id'])
        r = self.db.records.get(cls['n'])
        if r is None or 'f' not in r:
            raise Refuse('record %s' % cls['n'])
        if r.get('bases'):
            # exception classes and the like
            if all(self.is_std_exception(b['n']) for b in r['bases']):
                return [(st, RecV(cls['n'], {}))]
            raise Refuse('class with bases %s' % cls['n'])
        spec = self.specs.find(self, f, fn) if self.specs else None
        if fn is None:
            if f.get('def') and f.get('ctor') == 'default':
                c = self.cell(st, ('tmp', e['_n']), RecV(cls['n'], {}), scope=False)
                rs = self.field_inits(st, Loc(c), r, {})
                out = []
                for s, v in rs:
                    if not isinstance(v, Thrown):
                        v = s.store.pop(c)
                    out.append((s, v))
                return out
            raise Refuse('constructor without body %s' % f['qn'])
        if spec is not None and self.sym and not spec.inline:
            c = self.cell(st, ('tmp', e['_n']), RecV(cls['n'], {}), scope=False)
            rs = self.apply_contract(st, spec, f, fn, Loc(c), vs, e)
            out = []
            for s, v in rs:
                val = s.store.pop(c)
                out.append((s, v if isinstance(v, Thrown) else val))
            return out
        c = self.cell(st, ('tmp', e['_n']), RecV(cls['n'], {}), scope=False)
        rs = self.call_body(st, fn, Loc(c), vs, e)
        out = []
        for s, v in rs:
            val = s.store.pop(c, None)
            out.append((s, v if isinstance(v, Thrown) else val))
        return out

    def is_std_exception(self, n):
        return n in BUILTIN_EXC

    def field_inits(self, st, this, rec, given):
        """run member initialisers: given maps field -> expr"""
        rs = [(st, None)]
        for fd in rec['f']:
            x = given.get(fd['n'], fd.get('init'))
            nr = []
            for s, v in rs:
                if isinstance(v, Thrown):
                    nr.append((s, v))
                    continue
                if x is None:
                    if fd['t']['k'] == 'rec':
                        self.save(s, this.f(fd['n']), self.zero_of(fd['t']))
                    else:
                        self.save(s, this.f(fd['n']), None)
                    nr.append((s, None))
                    continue
                for s2, v2 in self.ev(s, x):
                    if isinstance(v2, Thrown):
                        nr.append((s2, v2))
                    else:
                        self.save(s2, this.f(fd['n']), self.rval(s2, v2))
                        nr.append((s2, None))
            rs = nr
        return rs

    def call_body(self, st, fn, this, vs, e, caps=None, capthis=None):
        """inline a function body; vs are argument values (Loc for references)"""
        key = fn['_k']
        if not self.sym or True:
            self.depth += 1
            if self.depth > (60 if self.sym else 200):
                raise Refuse('recursion without contract in %s' % short(fn))
        if self.sym and sum(1 for c in st.cp if c[1] == key) >= 1:
            raise Refuse('recursive call of %s without contract' % short(fn))
        if self.sym:
            self.inlined.add(short(fn))
        env0, this0, cp0 = st.env, st.this, st.cp
        st.env = {}
        st.cp = cp0 + ((e['_n'], key),)
        st.this = this
        nsc = len(st.scopes)
        st.scopes.append([])
        if caps is not None:
            st.this = capthis
            for i, (k, b) in caps.items():
                if k == 'ref':
                    st.env[i] = b
                else:
                    st.env[i] = Loc(self.cell(st, ('cap', i), b))
        self.bind_params(st, fn, vs)
        rs = self.run_fn(st, fn)
        out = []
        for s, oc in rs:
            dead = s.scopes.pop()
            s.env, s.this, s.cp = dict(env0), this0, cp0
            v = None
            if oc is not None:
                if oc[0] == 'return':
                    v = oc[1]
                elif oc[0] == 'throw':
                    v = oc[1]
                else:
                    raise Refuse('stray %s' % oc[0])
            if isinstance(v, Loc) and v.cell in dead:
                raise Refuse('reference to a local escapes')
            for c in dead:
                s.store.pop(c, None)
            assert len(s.scopes) == nsc
            out.append((s, v))
        self.depth -= 1
        return out

    def bind_params(self, st, fn, vs):
        for p, v in zip(fn['params'], vs):
            ty = p['t']
            if ty['k'] == 'ref':
                if not isinstance(v, Loc):
                    v = Loc(self.cell(st, ('parg', p['id']), v))
                st.env[p['id']] = v
            else:
                v = self.rval(st, v)
                st.env[p['id']] = Loc(self.cell(st, ('param', p['id']), v, ty=ty))

    def run_fn(self, st, fn):
        """member initialisers and body -> [(state, outcome)]"""
        rs = [(st, None)]
        if 'inits' in fn:
            rec = self.db.records[fn['cls']['n']]
            given = {}
            for i in fn['inits']:
                if 'field' in i:
                    given[i['field']] = i['x']
                elif 'other' in i:
                    raise Refuse('delegating constructor')
            rs = [(s, ('throw', v) if isinstance(v, Thrown) else None) for s, v in self.field_inits(st, st.this, rec, given)]
        out = []
        for s, oc in rs:
            if oc is not None:
                out.append((s, oc))
            elif fn.get('body') is None:
                raise Refuse('no body: %s' % short(fn))
            else:
                out.extend(self.ex(s, fn['body']))
        return out

    def e_call(self, st, e):
        if 'f' not in e:
            raise Refuse('indirect call at %s' % e.get('l'))
        return self.bind(self.evs(st, e['args']), lambda s, vs: self.do_call(s, e, e['f'], None, vs))

    def e_mcall(self, st, e):
        if 'f' not in e:
            raise Refuse('indirect member call')

        def f(s, vs):
            o = vs[0]
            if isinstance(o, PtrV):
                o = o.loc
            return self.do_call(s, e, e['f'], o, vs[1:])
        return self.bind(self.evs(st, [e['obj']] + e['args']), f)

    def e_opcall(self, st, e):
        if 'f' not in e:
            raise Refuse('operator call')
        f = e['f']
        args = e['args']
        # assignment: right operand first (C++17 order, what gcc does for class types); else left to right
        if base_name(f) == 'operator=' and len(args) == 2:
            return self.bind(self.evs(st, [args[1], args[0]]), lambda s, vs: self.do_call(s, e, f, vs[1], [vs[0]]))

        def g(s, vs):
            if 'cls' in f and not f.get('static'):
                return self.do_call(s, e, f, vs[0], vs[1:])
            return self.do_call(s, e, f, None, vs)
        return self.bind(self.evs(st, args), g)

    def do_call(self, st, e, f, obj, vs):
        if isinstance(obj, LamV) or (isinstance(obj, Loc) and isinstance(st.store.get(obj.cell), LamV) and not obj.path):
            lam = obj if isinstance(obj, LamV) else st.store[obj.cell]
            fn = self.db.fn(lam.fid)
            spec = self.specs.find(self, f, fn) if self.specs and not lam.caps and lam.this is None else None
            if spec is not None and self.sym and not spec.inline:
                return self.apply_contract(st, spec, f, fn, None, vs, e)
            return self.call_body(st, fn, None, vs, e, caps=lam.caps, capthis=lam.this)
        if f.get('sys') or ('cls' in f and self.db.records.get(f['cls'].get('n'), {}).get('sys')):
            return self.sys_call(st, e, f, obj, vs)
        fn = self.db.fn(f['id'])
        if fn is None or (fn.get('body') is None):
            if f.get('def') and f.get('asgn'):
                v = self.rval(st, vs[0])
                self.save(st, obj, v)
                return [(st, obj)]
            raise Refuse('call of a function without body: %s' % f['qn'])
        if 'cls' in f and not f.get('static') and obj is not None and not isinstance(obj, Loc):
            obj = Loc(self.cell(st, ('tmp', e['_n']), obj))
        spec = self.specs.find(self, f, fn) if self.specs else None
        if spec is not None:
            if self.sym and not spec.inline:
                return self.apply_contract(st, spec, f, fn, obj, vs, e)
            if not self.sym and spec.concrete is not None:
                r = spec.concrete(self, st, fn, obj, vs)
                if r is not NotImplemented:
                    return [(st, r)]
        if 'cls' in f and f.get('static'):
            obj = None
        return self.call_body(st, fn, obj, vs, e)

    # ------------------------------------------------------------ contracts
    def apply_contract(self, st, spec, f, fn, obj, vs, e):
        args = []
        ptys = [p['t'] for p in fn['params']]
        for ty, v in zip(ptys, vs):
            if ty['k'] == 'ref':
                if not isinstance(v, Loc):
                    v = Loc(self.cell(st, ('targ', e['_n']), v))
            else:
                v = self.rval(st, v)
            args.append(v)
        objs = ([obj] if obj is not None and 'cls' in fn and not fn.get('static') else []) + args
        from .specs import CallCtx
        alias = spec.alias_of(objs)
        ctx = CallCtx(self, spec, fn, objs, alias)
        ctx.enter(st)
        self.used.add((short(fn), alias))
        for label, tm in spec.pre(ctx):
            self.oblige(st, 'precondition', tm, e.get('l'), '%s: %s' % (short(fn), label))
        out = []
        if self.fault and spec.may_alloc:
            s2 = st.clone()
            for l in spec.modifies(ctx):
                self.havoc(s2, l)
            self.excn += 1
            out.append((s2, Thrown('std::bad_alloc', 'a%d' % self.excn, 'in ' + short(fn))))
        if spec.throws is not None:
            cond = spec.throws(ctx)
            if cond is not None:
                br = self.branch(st, cond[0], e.get('l'), e['_n'])
                st = None
                for s2, b in br:
                    if b:
                        self.excn += 1
                        out.append((s2, Thrown(cond[1], 'x%d' % self.excn)))
                    else:
                        st = s2
                if st is None:
                    return out
        for l in spec.modifies(ctx):
            self.havoc(st, l)
        ret = spec.result(ctx, st)
        ctx.leave(st, ret)
        for tags, label, tm in spec.post(ctx):
            st.assume(tm)
        for why, tm in spec.given(ctx, st):
            self.assumed.add(why)
            st.assume(tm)
        if self.top is not None and fn['_k'] == self.top[0]:
            m = spec.measure(ctx)
            if m is None:
                self.oblige(st, 'termination', t.FALSE, e.get('l'), 'recursive call without a measure')
            else:
                m0 = spec.measure(self.top[1])
                self.oblige(st, 'termination', t.and_(t.ge(m, t.ZERO), t.lt(m, m0)), e.get('l'), 'the recursive call is on something smaller')
        out.append((st, ret))
        return out

    def havoc(self, st, loc):
        v = self.load(st, loc)
        self.save(st, loc, self.fresh_like(v))

    def fresh_like(self, v, base='h'):
        if isinstance(v, t.T):
            if v.s == 'O':
                self.fresh_n += 1
                return t.osym('%s!%d' % (base, self.fresh_n))
            if v.s in ('B', 'R'):
                return self.fresh(base, sort=v.s)
            lo, hi = t.rng(v)
            raise Refuse('havoc of untyped scalar')
        if isinstance(v, VecV):
            self.fresh_n += 1
            n = self.fresh_n
            return VecV(t.sym('%s.size!%d' % (base, n), 0, MAXSZ),
                        {p: t.asym('%s%s!%d' % (base, ''.join('.' + q for q in p), n), t.aw(a)) for p, a in v.arrs.items()}, v.et)
        if isinstance(v, RecV):
            r = self.db.records.get(v.n)
            if r and 'f' in r:
                return RecV(v.n, {f['n']: self.fresh_val(f['t'], base + '.' + f['n']) for f in r['f']})
            return RecV(v.n, {k: self.fresh_like(x, base) for k, x in v.f.items()})
        raise Refuse('havoc of %r' % (v,))

    def alloc(self, st, why=''):
        """a point where memory may run out: returns extra outcomes (fault mode)"""
        if not self.fault:
            return []
        s2 = st.clone()
        self.excn += 1
        return [(s2, Thrown('std::bad_alloc', 'a%d' % self.excn, why))]

    # -------------------------------------------------------------- library
    def sys_ctor(self, st, e, f, cls, vs):
        from . import stdlib
        return stdlib.ctor(self, st, e, f, cls, vs)

    def sys_call(self, st, e, f, obj, vs):
        from . import stdlib
        return stdlib.call(self, st, e, f, obj, vs)

    # ----------------------------------------------------------- statements
    # outcome: None | ('break',) | ('continue',) | ('return', v) | ('throw', Thrown)
    def ex(self, st, s):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        m = getattr(self, 's_' + s['s'], None)
        if m is None:
            raise Refuse('statement %s at %s' % (s.get('cls', s['s']), s.get('l')))
        return m(st, s)

    def seq(self, rs, f):
        out = []
        for s, oc in rs:
            if oc is None:
                out.extend(f(s))
            else:
                out.append((s, oc))
        return out

    def open_scope(self, st):
        st.scopes.append([])
        return len(st.scopes)

    def close_scope(self, rs, n):
        for s, oc in rs:
            while len(s.scopes) >= n:
                for c in s.scopes.pop():
                    s.store.pop(c, None)
        return rs

    def s_block(self, st, s):
        n = self.open_scope(st)
        rs = [(st, None)]
        for x in s['b']:
            rs = self.seq(rs, lambda q, x=x: self.ex(q, x))
        return self.close_scope(rs, n)

    def s_null(self, st, s):
        return [(st, None)]

    def s_expr(self, st, s):
        return [(q, ('throw', v) if isinstance(v, Thrown) else None) for q, v in self.ev(st, s['x'])]

    def s_decl(self, st, s):
        rs = [(st, None)]
        for d in s['d']:
            rs = self.seq(rs, lambda q, d=d: self.decl(q, d))
        return rs

    def decl(self, st, d):
        if 'unsupported' in d:
            raise Refuse('declaration %s' % d['unsupported'])
        ty = d['t']
        if d.get('static'):
            if not ty.get('c'):
                raise Refuse('mutable static local %s' % d['n'])
            # evaluated through its definition
            g = self.db.globals.get(str(d['id']))
            rs = self.ev(st, d['x'])
            out = []
            for q, v in rs:
                if isinstance(v, Thrown):
                    out.append((q, ('throw', v)))
                    continue
                v = self.rval(q, v)
                if not self.is_const(v):
                    raise Refuse('static local %s is not a constant' % d['n'])
                q.env[d['id']] = Loc(self.cell(q, ('var', d['id'], d['n']), v, ty=ty))
                out.append((q, None))
            return out
        if 'x' not in d:
            if ty['k'] == 'rec':
                v = self.zero_of(ty)
            elif ty['k'] == 'array':
                raise Refuse('uninitialised array')
            else:
                v = None
            st.env[d['id']] = Loc(self.cell(st, ('var', d['id'], d['n']), v, ty=ty))
            return [(st, None)]
        out = []
        for q, v in self.ev(st, d['x']):
            if isinstance(v, Thrown):
                out.append((q, ('throw', v)))
                continue
            if ty['k'] == 'ref':
                if not isinstance(v, Loc):
                    v = Loc(self.cell(q, ('var', d['id'], d['n']), v, ty=ty))
                q.env[d['id']] = v
            else:
                q.env[d['id']] = Loc(self.cell(q, ('var', d['id'], d['n']), self.rval(q, v), ty=ty))
            out.append((q, None))
        return out

    def cond_of(self, st, c):
        """evaluate a condition -> [(state, True/False/Thrown)]"""
        out = []
        for q, v in self.ev(st, c):
            if isinstance(v, Thrown):
                out.append((q, v))
                continue
            v = self.rval(q, v)
            if not isinstance(v, t.T):
                raise Refuse('condition')
            if v.s != 'B':
                v = t.i2b(v)
            out.extend(self.branch(q, v, c.get('l'), c['_n']))
        return out

    def s_if(self, st, s):
        n = self.open_scope(st)
        rs = [(st, None)]
        if s.get('init'):
            rs = self.ex(st, s['init'])
        if 'cv' in s:
            rs = self.seq(rs, lambda q: self.decl(q, s['cv']))

        def f(q):
            out = []
            for q2, b in self.cond_of(q, s['c']):
                if isinstance(b, Thrown):
                    out.append((q2, ('throw', b)))
                elif b:
                    out.extend(self.ex(q2, s['then']))
                elif s.get('else'):
                    out.extend(self.ex(q2, s['else']))
                else:
                    out.append((q2, None))
            return out
        return self.close_scope(self.seq(rs, f), n)

    def s_return(self, st, s):
        if s['x'] is None:
            return [(st, ('return', None))]
        out = []
        for q, v in self.ev(st, s['x']):
            out.append((q, ('throw', v) if isinstance(v, Thrown) else ('return', v)))
        return out

    def s_break(self, st, s):
        return [(st, ('break',))]

    def s_continue(self, st, s):
        return [(st, ('continue',))]

    def s_switch(self, st, s):
        n = self.open_scope(st)
        rs = [(st, None)]
        if s.get('init'):
            rs = self.ex(st, s['init'])
        body = s['b']
        if body['s'] != 'block':
            raise Refuse('switch body')
        flat = []   # (labels, stmt)

        def unwrap(x):
            labels = []
            while x['s'] in ('case', 'default'):
                if x['s'] == 'case':
                    if 'v2' in x:
                        raise Refuse('case range')
                    labels.append(x['v'])
                else:
                    labels.append(None)
                x = x['b']
            return labels, x
        for x in body['b']:
            flat.append(unwrap(x))

        def run(q, i):
            r = [(q, None)]
            for labels, x in flat[i:]:
                r = self.seq(r, lambda z, x=x: self.ex(z, x))
            return r

        def f(q):
            out = []
            for q2, v in self.ev(q, s['c']):
                if isinstance(v, Thrown):
                    out.append((q2, ('throw', v)))
                    continue
                v = self.rval(q2, v)
                live = q2
                default = None
                for i, (labels, x) in enumerate(flat):
                    for lb in labels:
                        if lb is None:
                            default = i
                            continue
                        if live is None:
                            continue
                        [(live, cv)] = self.ev(live, lb)
                        nxt = None
                        for q3, b in self.branch(live, t.eq(v, cv), s.get('l'), s['_n'] + str(i)):
                            if b:
                                out.extend(run(q3, i))
                            else:
                                nxt = q3
                        live = nxt
                if live is not None:
                    if default is not None:
                        out.extend(run(live, default))
                    else:
                        out.append((live, None))
            return out
        res = []
        for q, oc in self.seq(rs, f):
            res.append((q, None if oc == ('break',) else oc))
        return self.close_scope(res, n)

    s_case = None
    s_default = None

    def s_try(self, st, s):
        n0 = len(st.scopes)
        env0 = dict(st.env)
        out = []
        for q, oc in self.ex(st, s['b']):
            if oc is None or oc[0] != 'throw':
                out.append((q, oc))
                continue
            # unwind
            q.env = dict(env0)
            while len(q.scopes) > n0:
                for c in q.scopes.pop():
                    q.store.pop(c, None)
            handled = False
            for h in s['h']:
                if 'v' in h:
                    ty = h['v']['t']
                    ty = ty['t'] if ty['k'] == 'ref' else ty
                    m = self.exc_match(oc[1].ty, ty)
                else:
                    m = True
                if m:
                    handled = True
                    q.exc = q.exc + (oc[1],)
                    q.scopes.append([])
                    if 'v' in h:
                        q.env[h['v']['id']] = Loc(self.cell(q, ('var', h['v']['id'], 'e'), RecV(oc[1].ty, {})))
                    rs = self.ex(q, h['b'])
                    for q2, oc2 in rs:
                        q2.exc = q2.exc[:-1]
                        while len(q2.scopes) > n0:
                            for c in q2.scopes.pop():
                                q2.store.pop(c, None)
                        out.append((q2, oc2))
                    break
            if not handled:
                out.append((q, oc))
        return out

    def exc_match(self, thrown, ty):
        n = ty.get('n', ty['k'])
        work = [thrown]
        while work:
            x = work.pop()
            if x == n:
                return True
            if x in BUILTIN_EXC:
                work.extend(BUILTIN_EXC[x])
            else:
                r = self.db.records.get(x)
                if r and 'bases' in r:
                    work.extend(b['n'] for b in r['bases'])
        return False

    # ---------------------------------------------------------------- loops
    def s_while(self, st, s):
        return self.loop(st, s, cond=s['c'], body=s['b'], cv=s.get('cv'))

    def s_do(self, st, s):
        return self.loop(st, s, cond=s['c'], body=s['b'], post=True)

    def s_for(self, st, s):
        n = self.open_scope(st)
        rs = [(st, None)]
        if s.get('init'):
            rs = self.ex(st, s['init'])
        rs = self.seq(rs, lambda q: self.loop(q, s, cond=s.get('c'), body=s['b'], inc=s.get('inc'), cv=s.get('cv')))
        return self.close_scope(rs, n)

    def s_range(self, st, s):
        n = self.open_scope(st)
        rs = self.ex(st, s['range'])
        rs = self.seq(rs, lambda q: self.ex(q, s['begin']))
        rs = self.seq(rs, lambda q: self.ex(q, s['end']))
        rs = self.seq(rs, lambda q: self.loop(q, s, cond=s['c'], body=s['b'], inc=s['inc'], pre=s['v']))
        return self.close_scope(rs, n)

    def one_iter(self, st, L):
        """from the loop head: -> (continuing states at head, [(state, outcome)] leaving)"""
        again, leave = [], []
        n = self.open_scope(st)

        def body(q):
            rs = [(q, None)]
            if L.get('pre'):
                rs = self.ex(q, L['pre'])
            return self.seq(rs, lambda z: self.ex(z, L['body']))

        def after(q):
            """increment"""
            if L.get('inc'):
                r = []
                for z, v in self.ev(q, L['inc']):
                    r.append((z, ('throw', v) if isinstance(v, Thrown) else None))
                return r
            return [(q, None)]

        def test(q):
            if L.get('cond') is None:
                return [(q, True)]
            rs = [(q, None)]
            if L.get('cv'):
                rs = self.decl(q, L['cv'])
            out = []
            for z, oc in rs:
                if oc is not None:
                    out.append((z, oc[1]))
                else:
                    out.extend(self.cond_of(z, L['cond']))
            return out

        def close(q):
            while len(q.scopes) >= n:
                for c in q.scopes.pop():
                    q.store.pop(c, None)

        if L.get('post'):
            for q, oc in body(st):
                if oc in (None, ('continue',)):
                    for z, b in test(q):
                        close(z)
                        if isinstance(b, Thrown):
                            leave.append((z, ('throw', b)))
                        elif b:
                            again.append(z)
                        else:
                            leave.append((z, None))
                else:
                    close(q)
                    leave.append((q, None if oc == ('break',) else oc))
            return again, leave
        for q, b in test(st):
            if isinstance(b, Thrown):
                close(q)
                leave.append((q, ('throw', b)))
            elif not b:
                close(q)
                leave.append((q, None))
            else:
                for z, oc in body(q):
                    if oc in (None, ('continue',)):
                        for y, oc2 in after(z):
                            close(y)
                            if oc2 is None:
                                again.append(y)
                            else:
                                leave.append((y, oc2))
                    else:
                        close(z)
                        leave.append((z, None if oc == ('break',) else oc))
        return again, leave

    def loop(self, st, s, **L):
        key = (st.cp, s['_n'])
        L['key'] = key
        L['node'] = s
        if not self.sym:
            return self.loop_concrete(st, L)
        r = self.try_unroll(st, L)
        if r is not None:
            return r
        return self.loops.cut(self, st, L)

    def loop_concrete(self, st, L):
        out = []
        pre = dict(st.store)
        live = [st]
        it = 0
        while live:
            nl = []
            for q in live:
                if self.loops is not None:
                    self.loops.sample(self, q, L, pre, it)
                a, lv = self.one_iter(q, L)
                nl.extend(a)
                out.extend(lv)
            live = nl
            it += 1
            self.fuel -= 1
            if self.fuel < 0:
                raise Fuel()
        return out

    def try_unroll(self, st, L):
        """complete unrolling of loops whose condition is constant in every iteration"""
        c = L.get('cond')
        if c is None or c['e'] in ('bool', 'int') or L.get('post'):
            return None
        sv = (self.quiet, list(self.obls), self.fresh_n)
        self.quiet += 1
        try:
            q = st.clone()
            n = self.open_scope(q)
            rs = self.ev(q, c)
            if len(rs) != 1 or isinstance(rs[0][1], Thrown):
                return None
            v = self.rval(rs[0][0], rs[0][1])
            if not isinstance(v, t.T) or v.op not in ('true', 'false', 'num'):
                return None
        finally:
            self.quiet = sv[0]
        nobl = len(self.obls)
        out = []
        live = [st.clone()]
        for it in range(70):
            nl = []
            for q in live:
                # the condition must be constant
                self.quiet += 1
                try:
                    rs = self.ev(q.clone(), c)
                finally:
                    self.quiet -= 1
                ok = len(rs) == 1 and not isinstance(rs[0][1], Thrown)
                if ok:
                    v = self.rval(rs[0][0], rs[0][1])
                    ok = isinstance(v, t.T) and v.op in ('true', 'false', 'num')
                if not ok:
                    del self.obls[nobl:]
                    return None
                a, lv = self.one_iter(q, L)
                nl.extend(a)
                out.extend(lv)
            live = nl
            if not live:
                return out
            if len(live) + len(out) > 8:
                break
        del self.obls[nobl:]
        return None
