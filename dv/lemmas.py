"""Machine-checked proofs of what smt.py and terms.py take for granted about digit values.

The functions of the digit theory are defined by recursion (`Sem.d_*`). From these definitions

 1. general theorems are proved by induction over an index (`THEOREMS`): each proof is two queries, the base case
    (every index <= 0) and the step, in which only instances of definitions and of theorems proved before may occur;
 2. every schema of smt.lemmas(), smt.mono_lemmas() and smt.atom_facts() is instantiated - by running these functions
    themselves - on generic terms of every shape, and each formula they return is proved from the theorems;
 3. every rewriting of a smart constructor of terms.py is proved on the same shapes (the plain term equals the term
    the constructor returns).

Digits are non-negative and fit the element type (the executor stores converted values only). All of it is done for the
digit bases of the instantiated number types.
"""
import itertools
import sys
import time
import z3
from . import terms as t, smt
from .terms import Ctx

I, Bo, Re = z3.IntSort(), z3.BoolSort(), z3.RealSort()
W = {2: 8, 8: 8, 10: 8, 16: 8, 256: 8, 65536: 16, 1 << 32: 32}
TIMEOUT = 20000
RETRY = False      # with more time (full runs)


class Failed(Exception):
    pass


class Sem:
    """uninterpreted functions for the recursive definitions, and instances of these definitions"""

    def __init__(self, B):
        self.B = B
        self.Arr = z3.DeclareSort('Arr')
        self.Out = z3.DeclareSort('Out')
        A, O = self.Arr, self.Out
        F = z3.Function
        self.sel = F('sel', A, I, I)
        self.selR = F('selR', A, I, Re)
        self.pow = F('pow', I, I)
        self.V = F('V', A, I, I)
        self.R = F('R', A, I, I)
        self.valid = F('valid', A, I, Bo)
        self.aeqn = F('aeqn', A, A, I, Bo)
        self.aeqr = F('aeqr', A, A, I, I, Bo)
        self.pow2p = F('pow2p', I, Bo)
        self.near = F('near', A, A, I, Bo)
        self.render = F('render', O, A, I, I, O)
        self.emitN = F('emitN', O, I, O)
        self.emitC = F('emitC', O, I, O)
        for op in ('band', 'bor', 'bxor', 'shl', 'shr', 'shlw'):
            setattr(self, op, F(op, I, I, I))
        self.rev = F('rev', A, I, A)
        self.upto = F('store_upto', A, A, I, I, I, Bo)
        self.shifted = F('shifted', A, A, I, Bo)
        # an index at which a predicate "for all indices below n" fails, if it fails (theorem allwit)
        self.w_valid = F('w_valid', A, I, I)
        self.w_aeqn = F('w_aeqn', A, A, I, I)
        self.w_aeqr = F('w_aeqr', A, A, I, I, I)
        self.w_upto = F('w_upto', A, A, I, I, I, I)
        self.zero = F('zero_from', A, I, I, Bo)
        self.w_zero = F('w_zero', A, I, I, I)
        self.w_shifted = F('w_shifted', A, A, I, I)
        self.proved = {}

    # definitions
    def d_pow(self, n):
        return z3.If(n <= 0, self.pow(n) == 1, self.pow(n) == self.B * self.pow(n - 1))

    def d_V(self, a, n):
        return z3.If(n <= 0, self.V(a, n) == 0, self.V(a, n) == self.V(a, n - 1) + self.sel(a, n - 1) * self.pow(n - 1))

    def d_R(self, a, n):
        return z3.If(n <= 0, self.R(a, n) == 0, self.R(a, n) == self.B * self.R(a, n - 1) + self.sel(a, n - 1))

    def d_valid(self, a, n):
        return z3.If(n <= 0, self.valid(a, n), self.valid(a, n) == z3.And(self.valid(a, n - 1), self.sel(a, n - 1) <= self.B - 1))

    def d_aeqn(self, a, b, n):
        return z3.If(n <= 0, self.aeqn(a, b, n), self.aeqn(a, b, n) == z3.And(self.aeqn(a, b, n - 1), self.sel(a, n - 1) == self.sel(b, n - 1)))

    def d_aeqr(self, a, b, lo, n):
        return z3.If(n <= lo, self.aeqr(a, b, lo, n), self.aeqr(a, b, lo, n) == z3.And(self.aeqr(a, b, lo, n - 1), self.sel(a, n - 1) == self.sel(b, n - 1)))

    def d_pow2p(self, n):
        return z3.And(z3.Implies(n <= 0, z3.Not(self.pow2p(n))), z3.Implies(n == 1, self.pow2p(n)),
                      z3.Implies(n >= 2, self.pow2p(n) == z3.And(n % 2 == 0, self.pow2p(n / 2))))

    def d_render(self, o, a, hi, lo):
        return z3.If(lo >= hi, self.render(o, a, hi, lo) == o, self.render(o, a, hi, lo) == self.emitN(self.render(o, a, hi, lo + 1), self.sel(a, lo)))

    def d_near(self, re, c, n, i):
        q = z3.Q(1, 4)
        ci = z3.ToReal(self.sel(c, i))
        return z3.Implies(z3.And(self.near(re, c, n), i >= 0, i < n),
                          z3.And(ci - q <= self.selR(re, i), self.selR(re, i) <= ci + q, self.sel(c, i) <= (1 << 31)))

    def d_sel(self, a, i):
        return self.sel(a, i) >= 0

    # array operations: what element i is
    def is_store(self, a, b, j, v, i):
        """b is a with element j replaced by v: its element i"""
        return self.sel(b, i) == z3.If(i == j, v, self.sel(a, i))

    def d_upto(self, a, b, j, v, n):
        return z3.If(n <= 0, self.upto(a, b, j, v, n), self.upto(a, b, j, v, n) == z3.And(self.upto(a, b, j, v, n - 1), self.is_store(a, b, j, v, n - 1)))

    def d_shifted(self, c, b, n):
        return z3.If(n <= 0, self.shifted(c, b, n), self.shifted(c, b, n) == z3.And(self.shifted(c, b, n - 1), self.sel(b, n - 1) == self.sel(c, n)))

    def d_zero(self, a, lo, n):
        return z3.If(n <= lo, self.zero(a, lo, n), self.zero(a, lo, n) == z3.And(self.zero(a, lo, n - 1), self.sel(a, n - 1) == 0))

    def d_rev(self, a, n, i):
        return self.sel(self.rev(a, n), i) == self.sel(a, n - 1 - i)

    # instances of theorem allwit
    def wit(self, what, *args):
        self.proved['allwit']
        w = getattr(self, 'w_' + what)(*args)
        n = args[-1]
        lo = args[2] if what == 'aeqr' else args[1] if what == 'zero' else 0
        a = args[0]
        bad = {'valid': lambda: self.sel(a, w) > self.B - 1, 'aeqn': lambda: self.sel(a, w) != self.sel(args[1], w),
               'aeqr': lambda: self.sel(a, w) != self.sel(args[1], w), 'upto': lambda: z3.Not(self.is_store(a, args[1], args[2], args[3], w)),
               'zero': lambda: self.sel(a, w) != 0,
               'shifted': lambda: self.sel(args[1], w) != self.sel(a, w + 1)}[what]()
        return z3.Or(getattr(self, what)(*args), z3.And(lo <= w, w < n, bad))

    # an instance of a theorem proved before
    def th(self, name, *args):
        return self.proved[name](*args)


def theorems(s):
    """(name, parameters, statement, induction variable or None, hints)

    hints(step, *params) are instances of definitions and proved theorems; in the step case the induction variable is
    the new index n + 1, and `step` is the old one (None in the base case).
    """
    B = s.B
    sel, pw, V, R = s.sel, s.pow, s.V, s.R
    A = s.Arr
    L = []

    def T(name, ps, st, ind=None, hints=None):
        L.append((name, ps, st, ind, hints or (lambda k, *x: [])))
    Im, An, Or = z3.Implies, z3.And, z3.Or

    T('pow1', 'n', lambda n: pw(n) >= 1, 'n', lambda k, n: [s.d_pow(n)])
    T('powmono', 'an', lambda a, n: Im(a <= n, pw(a) <= pw(n)), 'n',
      lambda k, a, n: [s.d_pow(n), s.d_pow(a), s.th('pow1', n - 1), s.th('pow1', a)])
    T('powstrict', 'ab', lambda a, b: Im(An(a >= 0, a < b), B * pw(a) <= pw(b)), None,
      lambda k, a, b: [s.th('powmono', a + 1, b), s.d_pow(a + 1)])
    T('powsum', 'an', lambda a, n: Im(An(a >= 0, n >= 0), pw(a) * pw(n) == pw(a + n)), 'n',
      lambda k, a, n: [s.d_pow(n), s.d_pow(a + n)])
    T('sel0', 'Ai', lambda a, i: sel(a, i) >= 0, None, lambda k, a, i: [s.d_sel(a, i)])
    T('V0', 'An', lambda a, n: V(a, n) >= 0, 'n',
      lambda k, a, n: [s.d_V(a, n), s.d_sel(a, n - 1), s.th('pow1', n - 1)])
    T('Vmono', 'Amn', lambda a, m, n: Im(m <= n, V(a, m) <= V(a, n)), 'n',
      lambda k, a, m, n: [s.d_V(a, n), s.d_V(a, m), s.d_sel(a, n - 1), s.th('pow1', n - 1)])
    T('valmono', 'Amn', lambda a, m, n: Im(An(s.valid(a, n), m <= n), s.valid(a, m)), 'n',
      lambda k, a, m, n: [s.d_valid(a, n), s.d_valid(a, m)])
    T('valsel', 'Ain', lambda a, i, n: Im(An(s.valid(a, n), 0 <= i, i < n), sel(a, i) <= B - 1), 'n',
      lambda k, a, i, n: [s.d_valid(a, n)])
    T('Vbound', 'An', lambda a, n: Im(s.valid(a, n), V(a, n) <= pw(n) - 1), 'n',
      lambda k, a, n: [s.d_V(a, n), s.d_valid(a, n), s.d_pow(n), s.th('pow1', n - 1), s.d_sel(a, n - 1)])
    T('Vdiff', 'Amn', lambda a, m, n: Im(An(m <= n, m >= 0, s.valid(a, n)), V(a, n) - V(a, m) <= pw(n) - pw(m)), 'n',
      lambda k, a, m, n: [s.d_V(a, n), s.d_valid(a, n), s.d_pow(n), s.th('pow1', n - 1), s.d_V(a, m), s.d_pow(m)])
    # every array b that is a with element j replaced by v; the hypothesis is used at the indices that matter
    T('Vstore', 'ABjvn', lambda a, b, j, v, n: Im(s.upto(a, b, j, v, n), z3.If(An(j >= 0, j < n), V(b, n) == V(a, n) + (v - sel(a, j)) * pw(j), V(b, n) == V(a, n))), 'n',
      lambda k, a, b, j, v, n: [s.d_V(a, n), s.d_V(b, n), s.d_upto(a, b, j, v, n)])
    T('aeqnmono', 'ABmn', lambda a, b, m, n: Im(An(s.aeqn(a, b, n), m <= n), s.aeqn(a, b, m)), 'n',
      lambda k, a, b, m, n: [s.d_aeqn(a, b, n), s.d_aeqn(a, b, m)])
    T('aeqnsel', 'ABin', lambda a, b, i, n: Im(An(s.aeqn(a, b, n), 0 <= i, i < n), sel(a, i) == sel(b, i)), 'n',
      lambda k, a, b, i, n: [s.d_aeqn(a, b, n)])
    T('aeqnsym', 'ABn', lambda a, b, n: s.aeqn(a, b, n) == s.aeqn(b, a, n), 'n',
      lambda k, a, b, n: [s.d_aeqn(a, b, n), s.d_aeqn(b, a, n)])
    T('aeqrsym', 'ABln', lambda a, b, l, n: s.aeqr(a, b, l, n) == s.aeqr(b, a, l, n), 'n!l',
      lambda k, a, b, l, n: [s.d_aeqr(a, b, l, n), s.d_aeqr(b, a, l, n)])
    T('aeqnVn', 'ABn', lambda a, b, n: Im(s.aeqn(a, b, n), V(a, n) == V(b, n)), 'n',
      lambda k, a, b, n: [s.d_aeqn(a, b, n), s.d_V(a, n), s.d_V(b, n)])
    T('aeqnV', 'ABmn', lambda a, b, m, n: Im(An(s.aeqn(a, b, n), m <= n), V(a, m) == V(b, m)), None,
      lambda k, a, b, m, n: [s.th('aeqnmono', a, b, m, n), s.th('aeqnVn', a, b, m)])
    T('aeqnvaln', 'ABn', lambda a, b, n: Im(s.aeqn(a, b, n), s.valid(a, n) == s.valid(b, n)), 'n',
      lambda k, a, b, n: [s.d_aeqn(a, b, n), s.d_valid(a, n), s.d_valid(b, n)])
    T('aeqnval', 'ABmn', lambda a, b, m, n: Im(An(s.aeqn(a, b, n), m <= n), s.valid(a, m) == s.valid(b, m)), None,
      lambda k, a, b, m, n: [s.th('aeqnmono', a, b, m, n), s.th('aeqnvaln', a, b, m)])

    def prod(x, y, p):
        """x >= y + 1, p >= 0 -> x * p >= y * p + p, and the other way round (arithmetic, proved by itself)"""
        return s.th('prodstep', x, y, p)
    T('prodstep', 'xyp', lambda x, y, p: An(Im(An(p >= 0, x >= y + 1), x * p >= y * p + p), Im(An(p >= 0, y >= x + 1), y * p >= x * p + p)))
    T('unique', 'ABn', lambda a, b, n: Im(An(s.valid(a, n), s.valid(b, n), V(a, n) == V(b, n)), s.aeqn(a, b, n)), 'n',
      lambda k, a, b, n: [s.d_aeqn(a, b, n), s.d_V(a, n), s.d_V(b, n), s.d_valid(a, n), s.d_valid(b, n), s.th('V0', a, n - 1), s.th('V0', b, n - 1),
                          s.th('Vbound', a, n - 1), s.th('Vbound', b, n - 1), s.th('pow1', n - 1), prod(sel(a, n - 1), sel(b, n - 1), pw(n - 1))])
    T('aeqrsel', 'ABlin', lambda a, b, l, i, n: Im(An(s.aeqr(a, b, l, n), l <= i, i < n), sel(a, i) == sel(b, i)), 'n!l',
      lambda k, a, b, l, i, n: [s.d_aeqr(a, b, l, n)])
    T('aeqrV', 'ABln', lambda a, b, l, n: Im(An(s.aeqr(a, b, l, n), l >= 0, l <= n), V(a, n) - V(a, l) == V(b, n) - V(b, l)), 'n!l',
      lambda k, a, b, l, n: [s.d_aeqr(a, b, l, n), s.d_V(a, n), s.d_V(b, n)])
    T('Vzero', 'Aln', lambda a, l, n: Im(An(s.zero(a, l, n), l <= n), V(a, n) == V(a, l)), 'n!l',
      lambda k, a, l, n: [s.d_zero(a, l, n), s.d_V(a, n), s.d_V(a, l)])
    T('R0', 'An', lambda a, n: R(a, n) >= 0, 'n', lambda k, a, n: [s.d_R(a, n), s.d_sel(a, n - 1)])
    T('Rmono', 'Amn', lambda a, m, n: Im(m <= n, R(a, m) <= R(a, n)), 'n',
      lambda k, a, m, n: [s.d_R(a, n), s.d_R(a, m), s.d_sel(a, n - 1), s.th('R0', a, n - 1)])
    T('pow2p1', 'n', lambda n: Im(s.pow2p(n), n >= 1), None, lambda k, n: [s.d_pow2p(n)])
    T('vv', 'ABmn', lambda a, b, m, n: Im(An(s.valid(a, m), s.valid(b, n), m >= 0, n >= 0), V(a, m) * V(b, n) < pw(m + n)), None,
      lambda k, a, b, m, n: [s.th('Vbound', a, m), s.th('Vbound', b, n), s.th('powsum', m, n), s.th('V0', a, m), s.th('V0', b, n), s.th('pow1', m), s.th('pow1', n),
                             s.th('prodle', V(a, m), pw(m) - 1, V(b, n), pw(n) - 1)])
    T('prodle', 'xXyY', lambda x, X, y, Y: Im(An(0 <= x, x <= X, 0 <= y, y <= Y), x * y <= X * Y))
    # the value of the reversed digits is the Horner value: b is the sequence c read one index later
    T('Vfront', 'ABn', lambda c, b, n: Im(An(s.shifted(c, b, n), n >= 0), V(c, n + 1) == sel(c, 0) + B * V(b, n)), 'n',
      lambda k, c, b, n: [s.d_shifted(c, b, n), s.d_V(c, n + 1), s.d_V(c, z3.IntVal(1)), s.d_V(c, z3.IntVal(0)), s.d_V(b, n), s.d_pow(n), s.d_pow(z3.IntVal(0)),
                          s.d_V(c, n), s.th('mulB', sel(b, n - 1), pw(n - 1))])
    T('mulB', 'xy', lambda x, y: B * (x * y) == x * (B * y))
    T('Vrev', 'An', lambda a, n: V(s.rev(a, n), n) == R(a, n), 'n',
      lambda k, a, n: [s.d_R(a, n), s.d_V(s.rev(a, n), n)] + ([] if k is None else [
          s.th('Vfront', s.rev(a, n), s.rev(a, k), k), s.wit('shifted', s.rev(a, n), s.rev(a, k), k), s.d_rev(a, n, z3.IntVal(0)),
          s.d_rev(a, n, s.w_shifted(s.rev(a, n), s.rev(a, k), k) + 1), s.d_rev(a, k, s.w_shifted(s.rev(a, n), s.rev(a, k), k))]))
    order = {x[0]: k for k, x in enumerate(L)}
    first = ['prodstep', 'prodle', 'mulB']
    L.sort(key=lambda x: (-1, first.index(x[0])) if x[0] in first else (0, order[x[0]]))
    return L


def consts(s, ps, tag=''):
    out = []
    seen = {}
    for c in ps:
        k = seen[c] = seen.get(c, 0) + 1
        nm = '%s%s%d' % (c, tag, k)
        out.append(z3.Const(nm, s.Arr) if c in 'AB' else z3.Int(nm))
    return out


def query(fs, what, timeout=TIMEOUT):
    """every one of the formulas together is unsatisfiable"""
    # the default solver is erratic on these: several seeds with little time each
    for seed, arith, ms in [(0, None, 4000), (1, None, 4000), (2, None, 6000), (3, None, 6000), (12, None, 8000), (0, 'nia', timeout), (7, 2, timeout), (0, None, timeout), (4, None, timeout)]:
        sv = z3.Solver() if arith != 'nia' else z3.SolverFor('QF_UFNIA')
        sv.set('timeout', ms)
        if seed:
            sv.set('random_seed', seed)
        if arith == 2:
            sv.set('smt.arith.solver', 2)
        sv.add(*fs)
        r = sv.check()
        STAT['queries'] += 1
        if r == z3.unsat:
            return
        if r == z3.sat:
            raise Failed('%s is not valid: %s' % (what, str(sv.model())[:600]))
    if timeout == TIMEOUT and RETRY:
        return query(fs, what, 3 * TIMEOUT)
    raise Failed('%s: no proof found' % what)


STAT = {'queries': 0}


def prove_allwit(s):
    """all(n) <=> n <= lo or (all(n - 1) and q(n - 1)): if all(n) is false, q fails at an index in [lo, n)"""
    q, al = z3.Function('q', I, Bo), z3.Function('all', I, Bo)
    n, lo, k0 = z3.Ints('n lo k0')
    d = lambda n: z3.If(n <= lo, al(n), al(n) == z3.And(al(n - 1), q(n - 1)))
    neg = lambda n, ks: [z3.Not(al(n))] + [z3.Not(z3.And(lo <= k, k < n, z3.Not(q(k)))) for k in ks]    # no such index, at ks
    query([n <= lo, d(n)] + neg(n, []), 'theorem allwit, base case')
    query([n >= lo, z3.Or(al(n), z3.And(lo <= k0, k0 < n, z3.Not(q(k0)))), d(n + 1)] + neg(n + 1, [k0, n]), 'theorem allwit, induction step')
    s.proved['allwit'] = None


def prove_theorems(s):
    prove_allwit(s)
    n = 1
    for name, ps, st, ind, hints in theorems(s):
        xs = consts(s, ps)
        if ind is None:
            query([z3.Not(st(*xs))] + hints(None, *xs), 'theorem %s' % name)
        else:
            iv = ind.split('!')[0]
            k = max(j for j, c in enumerate(ps) if c == iv)
            n0 = z3.IntVal(0) if '!' not in ind else xs[ps.index(ind.split('!')[1])]
            query([xs[k] <= n0, z3.Not(st(*xs))] + hints(None, *xs), 'theorem %s, base case' % name)
            old = xs[k]
            ys = list(xs)
            ys[k] = old + 1
            query([old >= n0, st(*xs), z3.Not(st(*ys))] + hints(old, *ys), 'theorem %s, induction step' % name)
        s.proved[name] = st
        n += 1
    return n


# ------------------------------------------------------------ terms to formulas

class SemEnc:
    """terms.py terms as formulas over the definitions; the facts about them are instances of definitions and theorems"""

    def __init__(self, s):
        self.s = s
        self.memo = {}
        self.skolem = {}      # fresh symbols of lemma instances: the theorem's witness

    def witnesses(self, sub):
        for x in sub:
            if x.op == 'aeqn':
                self.skolem['agree!%d' % x.id] = lambda x=x: self.s.w_aeqn(*[self.e(y) for y in x.a])
            if x.op == 'aeqr':
                self.skolem['tail!%d' % x.id] = lambda x=x: self.s.w_aeqr(*[self.e(y) for y in x.a])

    def e(self, x):
        r = self.memo.get(x.id)
        if r is None:
            r = self.memo[x.id] = self._e(x)
        return r

    def mono(self, m):
        z = None
        for y in m:
            z = self.e(y) if z is None else z * self.e(y)
        return z

    def _e(self, x):
        s, op = self.s, x.op
        if op == 'num':
            return z3.RealVal(str(x.v)) if x.s == 'R' else z3.IntVal(x.v)
        if op == 'poly':
            real = x.s == 'R' or any(isinstance(c, t.Fraction) for m, c in x.v[0])
            acc = []
            for m, c in x.v[0]:
                z = self.mono(m) if m else None
                if real:
                    c = z3.RealVal(str(c))
                    if z is not None and z.sort() == I:
                        z = z3.ToReal(z)
                else:
                    c = z3.IntVal(c)
                acc.append(c if z is None else c * z)
            return z3.Sum(acc) if len(acc) > 1 else acc[0]
        if op == 'sym' and x.v in self.skolem:
            return self.skolem[x.v]()
        if op == 'sym':
            return {'I': z3.Int, 'R': z3.Real, 'B': z3.Bool}[x.s]('s_%s' % x.v)
        if x.op == 'rev' and x.s == 'A':
            return s.rev(self.e(x.a[0]), self.e(x.a[1]))
        if x.s in ('A', 'AR'):
            return z3.Const('arr_%d' % x.id, s.Arr)
        if op == 'osym':
            return z3.Const('out_%s' % x.v, s.Out)
        if op == 'cout':
            o = z3.Const('empty', s.Out)
            for c in x.v:
                o = s.emitC(o, z3.IntVal(ord(c)))
            return o
        if op in ('true', 'false'):
            return z3.BoolVal(op == 'true')
        a = [self.e(y) for y in x.a]
        if op == 'le0':
            return a[0] <= 0
        if op == 'eq0':
            return a[0] == 0
        if op == 'not':
            return z3.Not(a[0])
        if op == 'and':
            return z3.And(a)
        if op == 'or':
            return z3.Or(a)
        if op == 'ite':
            return z3.If(*a)
        if op == 'div':
            return a[0] / x.v
        if op == 'max2':
            return z3.If(a[0] >= a[1], a[0], a[1])
        if op == 'min2':
            return z3.If(a[0] <= a[1], a[0], a[1])
        if op == 'imod':
            return z3.If(a[1] > 0, a[0] % a[1], 0)
        if op == 'idiv':
            return z3.If(a[1] > 0, a[0] / a[1], 0)
        if op == 'floor':
            return z3.ToInt(a[0]) if a[0].sort() == Re else a[0]
        if op == 'oeq':
            return a[0] == a[1]
        if op == 'sel' and x.s == 'R':
            return s.selR(*a)
        return getattr(s, op)(*a)

    # -- instances of definitions and theorems relevant to the given terms
    def facts(self, roots):
        s, B = self.s, self.s.B
        sub = t.subterms(roots)
        self.witnesses(sub.values())
        # array terms and the indices at which they matter
        arrs = {x.id: x for x in sub.values() if x.s in ('A', 'AR')}
        idx = {}

        def addi(x):
            idx.setdefault(x.id, x)
        for x in sub.values():
            for k in smt.IDX_OPS.get(x.op, ()):
                if x.a[k].s == 'I':
                    addi(x.a[k])
            if x.op == 'slice':
                for n in list(idx.values()):
                    addi(t.add(n, x.a[1]))
        base = sorted(idx.values(), key=lambda x: x.id)
        zi = {}
        for x in base:
            e = self.e(x)
            c = t.const_part(x) if x.op == 'poly' else 0
            for d in range(min(0, -c) - 1, 2):
                v = z3.simplify(e + d)
                zi[v.get_id()] = v
        for d in (0, 1, 2, 3, 4):
            v = z3.IntVal(d)
            zi[v.get_id()] = v
        Z = list(zi.values())
        Zb = {}
        for x in base:
            for d in ((0, 1) if len(base) < 8 else (0,)):
                v = z3.simplify(self.e(x) + d)
                Zb[v.get_id()] = v
        Zb = list(Zb.values())
        out = []
        for x in sub.values():
            if x.s == 'I' and x.op == 'sym' and x.rg:
                lo, hi = x.rg
                if lo is not None:
                    out.append(self.e(x) >= lo)
                if hi is not None:
                    out.append(self.e(x) <= hi)
            if x.op in ('band', 'bor', 'bxor', 'shr', 'shl', 'shlw'):
                lo, hi = t.rng(x)
                out.append(self.e(x) >= lo)
                if hi is not None:
                    out.append(self.e(x) <= hi)
        # powers: of all indices; relations between those that occur
        ops = {x.op for x in sub.values()}
        if ops & {'pow', 'V', 'R', 'store'}:
            for n in Z:
                out += [s.d_pow(n), s.th('pow1', n)]
            for m, n in itertools.permutations(Z if not ops & {'V', 'R'} else Zb, 2):
                out += [s.th('powmono', m, n), s.th('powstrict', m, n)]
            for x in base:
                out += self.power_of_sum(x)
            if any(len(m) >= 2 and sum(y.op == 'pow' for y in m) >= 2 for x in sub.values() if x.op == 'poly' for m, c in x.v[0]):
                ps = [self.e(x.a[0]) for x in sub.values() if x.op == 'pow']
                for m, n in itertools.combinations_with_replacement(ps, 2):
                    out += [s.th('powsum', m, n), s.th('pow1', m + n)]
                    for k in Zb:
                        out += [s.th(x, *y) for x in ('powmono', 'powstrict') for y in ((k, m + n), (m + n, k))]
        for a in arrs.values():
            za = self.e(a)
            if a.s == 'AR':
                continue
            w = t.aw(a)
            # which elements this array has
            for i in Z:
                out.append(s.d_sel(za, i))
                if w:
                    out.append(s.sel(za, i) <= (1 << w) - 1)
                out += self.element(a, i)
            cs = {x.op for x in sub.values() if x.a and any(y is a for y in x.a)}
            if cs & {'V'} or (ops & {'V'}):
                for n in Z:
                    out += [s.d_V(za, n), s.th('V0', za, n)]
                for n in Zb:
                    out.append(s.th('Vbound', za, n))
                for m, n in itertools.permutations(Zb, 2):
                    out += [s.th('Vmono', za, m, n), s.th('Vdiff', za, m, n)]
            if ops & {'R'}:
                for n in Z:
                    out += [s.d_R(za, n), s.th('R0', za, n)]
                for m, n in itertools.permutations(Zb, 2):
                    out.append(s.th('Rmono', za, m, n))
            if ops & {'V', 'valid', 'near'}:
                for n in Z:
                    out.append(s.d_valid(za, n))
                for m, n in itertools.permutations(Zb, 2):
                    out += [s.th('valmono', za, m, n), s.th('valsel', za, m, n)]
                if a.a or (w and s.B == 1 << w):
                    for n in Zb:
                        k = s.w_valid(za, n)
                        out += [s.wit('valid', za, n), s.d_sel(za, k)] + ([s.sel(za, k) <= (1 << w) - 1] if w else []) + self.element(a, k)
                        for m in Zb:
                            out += [s.th('valsel', self.e(y), i, m) for y in a.a if y.s == 'A' for i in (k, k - 1, k + 1)]
            if a.op == 'store' and ops & {'V'}:
                a0, j, v = a.a
                for n in Zb:
                    x5 = (self.e(a0), za, self.e(j), self.e(v), n)
                    out += [s.wit('upto', *x5)] + self.element(a, s.w_upto(*x5)) + [s.th('Vstore', *x5)]
            if a.op in ('store', 'rfill', 'ins', 'del') and ops & {'V', 'valid'}:
                # agreement with the array it was made from
                z0 = self.e(a.a[0])
                for n in Zb:
                    out += [s.wit('aeqn', za, z0, n)] + self.element(a, s.w_aeqn(za, z0, n)) + [s.th('aeqnVn', za, z0, n), s.th('aeqnvaln', za, z0, n)]
            if a.op in ('rfill', 'fill') and ops & {'V'}:
                # and with zeroes above an index
                fr = self.e(a.a[1]) if a.op == 'rfill' else z3.IntVal(0)
                for n in Zb:
                    k = s.w_zero(za, fr, n)
                    out += [s.wit('zero', za, fr, n)] + self.element(a, k) + [s.th('Vzero', za, fr, n)]
            if a.op == 'rev':
                out.append(s.th('Vrev', self.e(a.a[0]), self.e(a.a[1])))
        for x in sub.values():
            if x.op in ('aeqn', 'aeqr'):
                a, b = self.e(x.a[0]), self.e(x.a[1])
                if x.op == 'aeqn':
                    for n in Z:
                        out.append(s.d_aeqn(a, b, n))
                    out += [s.wit('aeqn', a, b, self.e(x.a[2])), s.th('aeqnsym', a, b, self.e(x.a[2]))]
                    for y in x.a[:2]:
                        out += self.element(y, s.w_aeqn(a, b, self.e(x.a[2])))
                    for m in Zb:
                        for n in Zb:
                            out += [s.th('aeqnmono', a, b, m, n), s.th('aeqnsel', a, b, m, n), s.th('aeqnV', a, b, m, n), s.th('aeqnval', a, b, m, n)]
                        out.append(s.th('unique', a, b, m))
                else:
                    l = self.e(x.a[2])
                    out += [s.wit('aeqr', a, b, l, self.e(x.a[3])), s.th('aeqrsym', a, b, l, self.e(x.a[3]))]
                    for y in x.a[:2]:
                        out += self.element(y, s.w_aeqr(a, b, l, self.e(x.a[3])))
                    for n in Z:
                        out.append(s.d_aeqr(a, b, l, n))
                    for m in Zb:
                        out.append(s.th('aeqrV', a, b, l, m))
                        for n in Zb:
                            out.append(s.th('aeqrsel', a, b, l, m, n))
            if x.op == 'pow2p':
                n = self.e(x.a[0])
                out += [s.d_pow2p(n), s.d_pow2p(n / 2)]
                if x.a[0].op == 'num':
                    out += [s.d_pow2p(z3.IntVal(x.a[0].v >> k)) for k in range(70) if x.a[0].v >> k]
            if x.op == 'near':
                for i in Zb:
                    out.append(s.d_near(self.e(x.a[0]), self.e(x.a[1]), self.e(x.a[2]), i))
            if x.op == 'render':
                o, a, hi, lo = (self.e(y) for y in x.a)
                for i in Z:
                    out.append(s.d_render(o, a, hi, i))
        if 'near' in ops:
            vs = [x for x in sub.values() if x.op == 'V']
            for x, y in itertools.combinations_with_replacement(vs, 2):
                out.append(s.th('vv', *(self.e(z) for z in (x.a[0], y.a[0], x.a[1], y.a[1]))))
        return out

    def power_of_sum(self, i):
        """the power of c + x + y as a product"""
        s = self.s
        parts, c0 = [], 0
        for m, c in t.items(i):
            if m == ():
                c0 = c
            elif c in (1, 2):
                parts += [self.mono(m)] * c
            else:
                return []
        if not parts or not 0 <= c0 < 64:
            return []
        out = [s.d_pow(z3.IntVal(k)) for k in range(c0 + 1)]
        acc = parts[0]
        for x in parts[1:] + ([z3.IntVal(c0)] if c0 else []):
            out += [s.th('powsum', acc, x), s.th('pow1', acc)]
            acc = acc + x
        out.append(s.pow(acc) == s.pow(self.e(i)))      # the same index
        return out

    def element(self, a, i):
        """what element i of the array term a is"""
        s = self.s
        za = self.e(a)
        if a.op == 'store':
            return [s.is_store(self.e(a.a[0]), za, self.e(a.a[1]), self.e(a.a[2]), i)]
        if a.op == 'rfill':
            return [s.sel(za, i) == z3.If(i >= self.e(a.a[1]), self.e(a.a[2]), s.sel(self.e(a.a[0]), i))]
        if a.op == 'ins':
            z0, p, v = self.e(a.a[0]), self.e(a.a[1]), self.e(a.a[2])
            return [s.sel(za, i) == z3.If(i < p, s.sel(z0, i), z3.If(i == p, v, s.sel(z0, i - 1)))]
        if a.op == 'del':
            z0, p = self.e(a.a[0]), self.e(a.a[1])
            return [s.sel(za, i) == z3.If(i < p, s.sel(z0, i), s.sel(z0, i + 1))]
        if a.op == 'slice':
            return [s.sel(za, i) == s.sel(self.e(a.a[0]), i + self.e(a.a[1]))]
        if a.op == 'rev':
            return [s.sel(za, i) == s.sel(self.e(a.a[0]), self.e(a.a[1]) - 1 - i)]
        if a.op == 'fill':
            return [s.sel(za, i) == self.e(a.a[0])]
        if a.op == 'carr':
            r = z3.IntVal(0)
            for k, v in reversed(list(enumerate(a.v[0]))):
                r = z3.If(i == k, z3.IntVal(v), r)
            return [s.sel(za, i) == r]
        if a.op == 'aite':
            return [s.sel(za, i) == z3.If(self.e(a.a[0]), s.sel(self.e(a.a[1]), i), s.sel(self.e(a.a[2]), i))]
        return []


# ------------------------------------------------------------------- shapes

def raw(op, args, s, v=None):
    return t.mk(op, args, v, s)


class Shapes:
    """generic terms of every shape the schemas and constructors distinguish"""

    def __init__(self, B):
        t.reset(B)
        self.B, self.w = B, W[B]
        w = self.w
        big = 1 << 56
        S = lambda nm, lo=0, hi=big: t.sym(nm, lo, hi)
        self.n, self.m, self.k = S('n'), S('m'), S('k')
        self.z, self.y = t.sym('z'), t.sym('y')
        self.d, self.e = S('d', 0, (1 << w) - 1), S('e', 0, (1 << w) - 1)
        self.a, self.b = t.asym('a', w), t.asym('b', w)

    def index_pairs(self):
        n, m, z, y, N = self.n, self.m, self.z, self.y, t.num
        return [(n, m), (n, z), (z, y), (n, t.addn(n, 1)), (n, t.addn(n, -1)), (n, t.addn(n, 2)), (z, t.addn(z, 1)), (z, t.addn(z, -1)), (n, N(0)), (n, N(1)), (n, N(5)),
                (z, N(0)), (n, t.addn(m, 1)), (n, t.addn(m, -1)), (t.add(n, m), n), (t.add(n, m), t.addn(m, 1)), (n, t.div(n, 2)), (t.scale(n, 2), n), (t.sub(n, m), n), (N(3), N(6)), (N(0), N(1))]

    def arrays(self):
        a, b, n, m, z, d, e, N = self.a, self.b, self.n, self.m, self.z, self.d, self.e, t.num
        St = lambda a, i, v: raw('store', (a, i, v), 'A')
        Rf = lambda a, i, v: raw('rfill', (a, i, v), 'A')
        In = lambda a, i, v: raw('ins', (a, i, v), 'A')
        De = lambda a, i: raw('del', (a, i), 'A')
        return [a, St(a, n, d), St(a, m, d), St(a, z, d), St(a, N(0), d), St(a, t.addn(n, -1), d), St(a, t.addn(n, 1), d), St(a, n, t.ZERO), St(a, n, t.sel(b, m)), St(St(a, n, d), m, e),
                Rf(a, n, d), Rf(a, m, t.ZERO), Rf(a, n, t.ZERO), Rf(a, z, t.ZERO), Rf(a, z, d), Rf(a, N(0), t.ZERO), Rf(a, N(2), t.ZERO), Rf(St(a, n, d), m, t.ZERO), St(Rf(a, m, t.ZERO), n, d),
                In(a, t.ZERO, d), In(a, n, d), In(a, z, d), De(a, t.ZERO), De(a, n), De(a, z),
                raw('slice', (a, m), 'A'), raw('rev', (a, n), 'A'), raw('rev', (a, m), 'A'), t.fill(d, self.w), t.fill(t.ZERO, self.w), t.carr((1, 0, 1), self.w)]


def claim(s, f, what, about=()):
    """formula f (a term) is valid; `about` are the terms it is about"""
    enc = SemEnc(s)
    fs = enc.facts([f] + list(about))
    g = enc.e(f)
    query([z3.Not(g)] + fs, what)


def same(s, x, y, what):
    """two terms are equal"""
    enc = SemEnc(s)
    fs = enc.facts([x, y])
    if x.s in ('A', 'AR'):
        i = z3.Int('anywhere')
        fs += [f for u in t.subterms([x, y]).values() if u.s in ('A', 'AR') for j in (i, i - 1, i + 1) for f in enc.element(u, j)]
        query([s.sel(enc.e(x), i) != s.sel(enc.e(y), i)] + fs, what)
        return
    a, b = enc.e(x), enc.e(y)
    if a.sort() == z3.RealSort() and b.sort() == z3.IntSort():
        b = z3.ToReal(b)
    query([a != b] + fs, what)


KEYS = {'pow', 'powp', 'powsum', 'V', 'Vst', 'Vrf', 'Vstep', 'Vp', 'val', 'valst', 'valrf', 'valsel', 'valstep', 'valp', 'sst', 'srf', 'sin', 'sde',
        'aeqn', 'aeqns', 'aeqnV', 'aeqnv', 'aeqnU', 'aeqr', 'aeqrs', 'pow2p', 'pow2ph', 'near', 'vv', 'R', 'Rstep', 'Rp', 'ren', 'rens'}


def schema_terms(sh):
    """collections of terms on which smt.lemmas() is run"""
    w = sh.w
    V = lambda a, n: raw('V', (a, n), 'I')
    P = lambda n: raw('pow', (n,), 'I')
    val = lambda a, n: raw('valid', (a, n), 'B')
    sel = lambda a, n: raw('sel', (a, n), 'I')
    for p, q in sh.index_pairs():
        yield [P(p), P(q)]
        yield [t.mul(P(p), P(q)), P(sh.k), P(t.add(p, q))]
        yield [raw('pow2p', (p,), 'B'), t.div(p, 2)]
    for a in sh.arrays():
        for p, q in sh.index_pairs():
            yield [V(a, p), V(a, q), sel(a, p), sel(a, q)]
            yield [val(a, p), val(a, q), sel(a, p), sel(a, q)]
            yield [raw('R', (a, p), 'I'), raw('R', (a, q), 'I'), sel(a, p), sel(a, q)]
    for a, b in [(sh.a, sh.b)] + [(x, sh.b) for x in sh.arrays()[1:12:3]] + [(x, sh.a) for x in sh.arrays()[1:12:3]]:
        for p, q in sh.index_pairs():
            yield [raw('aeqn', (a, b, p), 'B'), V(a, q), V(b, q), val(a, q), val(b, q), sel(a, q), sel(b, q)]
            yield [raw('aeqn', (a, b, p), 'B'), val(a, p), val(b, p), V(a, p), V(b, p)]
            yield [raw('aeqr', (a, b, q, p), 'B'), sel(a, sh.k), sel(b, sh.k)]
    re = t.asym('re', 0)
    o = t.osym('o')
    for p, q in sh.index_pairs():
        yield [raw('near', (re, sh.a, p), 'B'), raw('sel', (re, q), 'R'), t.mul(V(sh.a, p), V(sh.b, q))]
        yield [raw('render', (o, sh.a, p, q), 'O'), sel(sh.a, q), raw('render', (o, sh.a, p, t.addn(q, 1)), 'O')]


def schema_instances(B):
    """(what, formula) of all lemma instances on the shapes"""
    sh = Shapes(B)
    seen = set()
    keys = set()
    out = []
    for ts in schema_terms(sh):
        sub = t.subterms(ts)
        done = set()
        smt.LEM.clear()
        before = set()
        for f in smt.lemmas(sub, done, 0):
            if f.id not in seen:
                seen.add(f.id)
                out.append((f, ts))
        keys |= {k[0] for k in done}
    missing = KEYS - keys
    if missing:
        raise Failed('lemma schemas never instantiated: %s' % sorted(missing))
    if keys - KEYS:
        raise Failed('unknown lemma schemas: %s' % sorted(keys - KEYS))
    return out


def monos(B):
    sh = Shapes(B)
    n, m, z, y, d, a, b = sh.n, sh.m, sh.z, sh.y, sh.d, sh.a, sh.b
    V, P, sel, dv = t.V(a, n), t.pow_(n), t.sel(a, n), t.div(n, 3)
    U, Q, r = t.V(b, m), t.pow_(m), t.sel(b, m)
    fs = [z, y, d, V, U, P, Q, sel, r, dv, n, t.imod(n, m), t.max2(z, y)]
    ms = []
    for x, y_ in itertools.combinations_with_replacement(fs, 2):
        ms.append((x, y_))
    for tr in [(z, y, d), (z, z, y), (d, P, Q), (sel, r, P), (V, U, P), (V, V, Q), (z, P, P), (z, d, V), (sel, z, dv)]:
        ms.append(tr)
    return [tuple(sorted(m, key=lambda x: x.id)) for m in ms]


def mono_instances(s):
    """z3 formulas of mono_lemmas() with true products, and the facts that belong to them"""
    out = []
    ms = monos(s.B)
    groups = [[m] for m in ms] + [[m, k] for m, k in itertools.combinations(ms, 2) if len(set(m) & set(k)) >= 1 and len(m) == len(k) == 2]
    for g in groups:
        smt.MLEM.clear()
        enc = SemEnc(s)
        d = {tuple(y.id for y in m): m for m in g}
        fs = smt.mono_lemmas(d, enc, set())
        terms = [y for m in d.values() for y in m]
        out.append((enc, terms, fs))
    return out


def constructor_pairs(B):
    """(what, plain term, term the smart constructor makes)"""
    sh = Shapes(B)
    n, m, z, y, d, e, a, b, k = sh.n, sh.m, sh.z, sh.y, sh.d, sh.e, sh.a, sh.b, sh.k
    o = t.osym('o')
    N = t.num
    idx = {x.id: x for p in sh.index_pairs() for x in p}
    idx = list(idx.values()) + [t.addn(n, 3), t.add(n, m, N(2)), N(-1), N(4), t.sub(n, m), t.add(t.scale(n, 2), m)]
    for i in idx:
        yield 'pow', raw('pow', (i,), 'I'), t.pow_(i)
        yield 'pow2p', raw('pow2p', (i,), 'B'), t.pow2p(i)
        for x in sh.arrays():
            for op, f, so in (('V', t.V, 'I'), ('R', t.R, 'I'), ('valid', t.valid, 'B'), ('sel', t.sel, 'I')):
                yield op, raw(op, (x, i), so), f(x, i)
        for j in idx:
            yield 'render', raw('render', (o, a, i, j), 'O'), t.render(o, a, i, j)
    for x in sh.arrays():
        for i in (n, m, z, N(0), N(2), t.addn(n, -1)):
            for v in (d, t.ZERO):
                yield 'store', raw('store', (x, i, v), 'A'), t.store(x, i, v)
                if x.op != 'carr':
                    yield 'rfill', raw('rfill', (x, i, v), 'A'), t.rfill(x, i, v)
                if i.op != 'num' or i.v >= 0:
                    if x.op != 'carr' or i.op != 'num' or i.v <= len(x.v[0]):
                        yield 'ins', raw('ins', (x, i, v), 'A'), t.ins(x, i, v)
            yield 'del', raw('del', (x, i), 'A'), t.dele(x, i)
            yield 'slice', raw('slice', (x, i), 'A'), t.slice_(x, i)
    for x, u in [(a, b), (a, a), (t.carr((1, 0), sh.w), t.carr((1, 0, 1), sh.w)), (t.store(a, n, d), a)]:
        for i in idx:
            yield 'aeqn', raw('aeqn', (x, u, i), 'B'), t.aeqn(x, u, i)
            yield 'aeqr', raw('aeqr', (x, u, m, i), 'B'), t.aeqr(x, u, m, i)
            yield 'aeqr', raw('aeqr', (x, u, N(2), i), 'B'), t.aeqr(x, u, N(2), i)
    # integer operations
    ps = [z, n, d, N(7), N(-7), N(0), t.add(n, m), t.sub(z, n), t.scale(z, 3), t.add(t.scale(z, 6), n), t.add(t.scale(d, B), e), t.add(t.scale(z, 4), N(3)), t.sub(t.scale(n, 8), t.scale(m, 5)), t.add(t.scale(n, 7), N(-3)), t.div(n, 2), t.div(z, 3),
          t.mul(z, y), t.mul(n, d), t.max2(z, y), t.min2(n, z), t.scale(d, -1)]
    for p in ps:
        for c in (1, 2, 3, 4, 8, B, 1 << 8, 1 << 16, 1 << 32):
            yield 'div', raw('div', (p,), 'I', c), t.div(p, c)
            yield 'mod', t.sub(p, t.scale(raw('div', (p,), 'I', c), c)), t.mod(p, c)
        yield 'le0', raw('le0', (p,), 'B'), t.le0(p)
        yield 'le0 (scaled)', raw('le0', (t.addn(t.scale(p, 6), 5),), 'B'), t.le0(t.addn(t.scale(p, 6), 5))
        yield 'not le0', raw('not', (raw('le0', (p,), 'B'),), 'B'), t.not_(t.le0(p))
        for q in ps:
            yield 'max2', raw('max2', (p, q), 'I'), t.max2(p, q)
            yield 'min2', raw('min2', (p, q), 'I'), t.min2(p, q)
            yield 'eq', raw('eq0', (t.sub(p, q),), 'B'), t.eq(p, q)
            yield 'lt', raw('not', (raw('le0', (t.sub(q, p),), 'B'),), 'B'), t.lt(p, q)
            yield 'ne', raw('not', (raw('eq0', (t.sub(p, q),), 'B'),), 'B'), t.ne(p, q)
            yield 'ite', raw('ite', (t.le0(z), p, q), 'I'), t.ite(t.le0(z), p, q)
    cs = [t.le0(z), t.le0(y), t.not_(t.le0(z)), t.TRUE, t.FALSE, t.eq(z, y), t.not_(t.eq(z, y)), t.and_(t.le0(z), t.le0(y)), t.or_(t.le0(z), t.eq(z, y)), t.pow2p(n)]
    for p in cs:
        yield 'not', raw('not', (p,), 'B'), t.not_(p)
        for q in cs:
            yield 'and', raw('and', (p, q), 'B'), t.and_(p, q)
            yield 'or', raw('or', (p, q), 'B'), t.or_(p, q)
            yield 'imp', raw('or', (raw('not', (p,), 'B'), q), 'B'), t.imp(p, q)
            yield 'iff', raw('and', (raw('or', (raw('not', (p,), 'B'), q), 'B'), raw('or', (raw('not', (q,), 'B'), p), 'B')), 'B'), t.iff(p, q)
            yield 'ite', raw('or', (raw('and', (t.le0(n), p), 'B'), raw('and', (raw('not', (t.le0(n),), 'B'), q), 'B')), 'B'), t.ite(t.le0(n), p, q)
    x = t.sym('x', None, None, 'R')
    h = t.Fraction(1, 2)
    for p in (x, t.add(x, t.num(h)), t.sub(t.scale(x, 3), t.num(h)), t.scale(t.sub(x, z), h)):
        yield 'le0 (real)', raw('le0', (p,), 'B'), t.le0(p)
        yield 'eq0 (real)', raw('eq0', (p,), 'B'), t.eq(p, t.ZERO)
        yield 'lt (real)', raw('not', (raw('le0', (t.neg(p),), 'B'),), 'B'), t.lt(p, t.ZERO)


def wrap_claims(B):
    """conversions to an integer type: in range, and congruent"""
    sh = Shapes(B)
    for p in (sh.z, t.add(sh.n, sh.m), t.mul(sh.z, sh.y), t.sub(sh.d, sh.n), t.num(300), t.num(-1)):
        for w in (8, 16, 32, 64):
            for sg in (False, True):
                r = t.wrap(p, w, sg)
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
                q = t.div(t.sub(p, r), 1 << w)
                yield 'wrap', t.and_(smt.mk_le0(t.sub(t.num(lo), r)), smt.mk_le0(t.sub(r, t.num(hi))))
                yield 'wrap', raw('eq0', (t.sub(t.sub(p, r), t.scale(raw('div', (t.sub(p, r),), 'I', 1 << w), 1 << w)),), 'B')
                for v in (t.shlw(p, t.num(3), w, sg),):
                    yield 'shlw', raw('eq0', (t.sub(t.sub(t.scale(p, 8), v), t.scale(raw('div', (t.sub(t.scale(p, 8), v),), 'I', 1 << w), 1 << w)),), 'B')


def fact_claims(B):
    sh = Shapes(B)
    z, y, n, m, d = sh.z, sh.y, sh.n, sh.m, sh.d
    x = t.sym('x', None, None, 'R')
    for u in (t.div(z, 3), t.div(n, 2), t.max2(z, y), t.min2(z, y), t.max2(n, m), t.floor_(x), t.imod(n, m), t.idiv(n, m), t.imod(d, n), t.idiv(d, n), t.sel(sh.a, n), t.V(sh.a, n), t.pow_(n), t.R(sh.a, n),
              t.ite(t.le0(z), n, d)):
        for f in smt._atom_facts(u):
            yield 'fact of %s' % u.op, f


def run(B, part=None, of=1, verbose=False, deadline=None):
    """proves everything for base B (or one part of `of`; part -1: the theorems only); returns the numbers of formulas proved and those which are not"""
    s = Sem(B)
    n = {'theorems': prove_theorems(s)}
    bad = []

    if part == -1:
        return n, bad
    seen = [0]

    def go(kind, what, f):
        seen[0] += 1
        if part is not None and seen[0] % of != part or deadline and time.time() > deadline:
            return
        try:
            f()
            n[kind] = n.get(kind, 0) + 1
        except Failed as e:
            bad.append('%s: %s' % (kind, e))
            if verbose:
                print('FAILED', kind, str(e)[:500], flush=True)
    for f, ts in schema_instances(B):
        go('lemma schema instances', None, lambda: claim(s, f, t.pp(f), ts))
    for enc, terms, fs in mono_instances(s):
        go('product lemma groups', None, lambda: query([z3.Not(z3.And(fs))] + enc.facts(terms), 'product lemmas of %s' % [t.pp(x) for x in terms]))
    for what, x, y in constructor_pairs(B):
        if x is not y:
            go('constructor rewritings', None, lambda: same(s, x, y, '%s: %s = %s' % (what, t.pp(x), t.pp(y))))
    for what, f in itertools.chain(wrap_claims(B), fact_claims(B)):
        if f is not t.TRUE:
            go('facts', None, lambda: claim(s, f, '%s: %s' % (what, t.pp(f))))
    return n, bad


def main():
    global RETRY
    RETRY = True
    for B in [int(x) for x in sys.argv[1:]] or (10,):
        t0 = time.time()
        n, bad = run(B, verbose=True)
        print(B, n, STAT['queries'], 'queries', len(bad), 'not proved %.1f s' % (time.time() - t0), flush=True)


if __name__ == '__main__':
    main()
