"""Bit-vector back end: decides formulas over bounded integers with bit operations, exactly.

Every integer term is encoded as a signed bit vector wide enough for the largest value any subterm can take
(interval arithmetic over the types of the symbols), so that no encoded operation can overflow.
"""
import time
import z3
from . import terms as t


class NoFit(Exception):
    pass


def bits(lo, hi):
    return max(lo.bit_length() if lo >= 0 else (-lo - 1).bit_length(), hi.bit_length() if hi >= 0 else (-hi - 1).bit_length()) + 1


class Enc:
    def __init__(self):
        self.iv = {}
        self.memo = {}
        self.side = []
        self.w = 8

    # ------------------------------------------------------------ intervals
    def need(self, x):
        """interval of an integer term; widens the bit width"""
        r = self.iv.get(x.id)
        if r is None:
            r = self._need(x)
            self.iv[x.id] = r
            self.w = max(self.w, bits(*r) + 1)
        return r

    def _need(self, x):
        op = x.op
        if op == 'num':
            if not isinstance(x.v, int):
                raise NoFit('real')
            return x.v, x.v
        if op == 'sym':
            if x.s != 'I' or x.rg is None or None in x.rg:
                raise NoFit('unbounded symbol')
            return x.rg
        if op == 'poly':
            lo = hi = 0
            for m, c in x.v[0]:
                if not isinstance(c, int):
                    raise NoFit('real')
                a, b = 1, 1
                for y in m:
                    p, q = self.need(y)
                    ps = [a * p, a * q, b * p, b * q]
                    a, b = min(ps), max(ps)
                    self.w = max(self.w, bits(a, b) + 1)
                a, b = min(a * c, b * c), max(a * c, b * c)
                self.w = max(self.w, bits(a, b) + 1, bits(c, c) + 1)
                lo, hi = lo + a, hi + b
                self.w = max(self.w, bits(lo, hi) + 1)
            return lo, hi
        if op == 'div':
            if x.v & (x.v - 1):
                raise NoFit('division')
            lo, hi = self.need(x.a[0])
            return lo // x.v, hi // x.v
        if op in ('band', 'bor', 'bxor'):
            (a, b), (c, d) = self.need(x.a[0]), self.need(x.a[1])
            k = bits(min(a, c), max(b, d))
            neg = a < 0 or c < 0
            return (-(1 << (k - 1)) if neg else 0), (1 << (k - 1)) - 1
        if op == 'shr':
            lo, hi = self.need(x.a[0])
            a, b = self.need(x.a[1])
            if lo < 0 or a < 0:
                raise NoFit('shift')
            return 0, hi
        if op == 'ite':
            self.needb(x.a[0])
            (a, b), (c, d) = self.need(x.a[1]), self.need(x.a[2])
            return min(a, c), max(b, d)
        if op in ('max2', 'min2'):
            (a, b), (c, d) = self.need(x.a[0]), self.need(x.a[1])
            f = max if op == 'max2' else min
            return f(a, c), f(b, d)
        raise NoFit(op)

    def needb(self, x):
        op = x.op
        if op in ('true', 'false') or (op == 'sym' and x.s == 'B'):
            return
        if op in ('and', 'or', 'not'):
            for y in x.a:
                self.needb(y)
        elif op in ('le0', 'eq0', 'pow2p'):
            self.need(x.a[0])
        elif op == 'ite' and x.s == 'B':
            for y in x.a:
                self.needb(y)
        else:
            raise NoFit(op)

    # ------------------------------------------------------------- encoding
    def e(self, x):
        r = self.memo.get(x.id)
        if r is None:
            r = self._e(x)
            self.memo[x.id] = r
        return r

    def _e(self, x):
        op, w = x.op, self.w
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'and':
            return z3.And(*[self.e(y) for y in x.a])
        if op == 'or':
            return z3.Or(*[self.e(y) for y in x.a])
        if op == 'not':
            return z3.Not(self.e(x.a[0]))
        if op == 'le0':
            return self.e(x.a[0]) <= 0
        if op == 'eq0':
            return self.e(x.a[0]) == 0
        if op == 'pow2p':
            n = self.e(x.a[0])
            return z3.Or(*[n == z3.BitVecVal(1 << k, w) for k in range(w - 1)])
        if op == 'num':
            return z3.BitVecVal(x.v, w)
        if op == 'sym':
            if x.s == 'B':
                return z3.Bool('b%d' % x.id)
            v = z3.BitVec('s%d' % x.id, w)
            lo, hi = x.rg
            self.side += [v >= z3.BitVecVal(lo, w), v <= z3.BitVecVal(hi, w)]
            return v
        if op == 'poly':
            r = None
            for m, c in x.v[0]:
                y = z3.BitVecVal(c, w)
                if m:
                    y = self.e(m[0])
                    for z in m[1:]:
                        y = y * self.e(z)
                    if c == -1:
                        y = -y
                    elif c != 1:
                        y = y << (c.bit_length() - 1) if c > 0 and c & (c - 1) == 0 else y * z3.BitVecVal(c, w)
                r = y if r is None else r + y
            return r
        if op == 'div':
            return self.e(x.a[0]) >> (x.v.bit_length() - 1)
        if op == 'band':
            return self.e(x.a[0]) & self.e(x.a[1])
        if op == 'bor':
            return self.e(x.a[0]) | self.e(x.a[1])
        if op == 'bxor':
            return self.e(x.a[0]) ^ self.e(x.a[1])
        if op == 'shr':
            return z3.LShR(self.e(x.a[0]), self.e(x.a[1]))
        if op == 'ite':
            return z3.If(self.e(x.a[0]), self.e(x.a[1]), self.e(x.a[2]))
        a, b = self.e(x.a[0]), self.e(x.a[1])
        if op == 'max2':
            return z3.If(a >= b, a, b)
        if op == 'min2':
            return z3.If(a <= b, a, b)
        raise NoFit(op)


def fits(f):
    """does the formula have bit operations that the integer back end leaves uninterpreted?"""
    return any(x.op in ('band', 'bor', 'bxor', 'shr', 'pow2p') for x in t.subterms([f]).values())


def prove(hyps, goal, timeout=30000):
    """(ok, info); hypotheses that cannot be encoded are left out, which is sound"""
    enc = Enc()
    ng = t.not_(goal)
    try:
        enc.needb(ng)
    except NoFit as e:
        return False, 'no bit-vector encoding: %s' % e
    hs = []
    for h in hyps:
        w, iv = enc.w, dict(enc.iv)
        try:
            enc.needb(h)
            hs.append(h)
        except NoFit:
            enc.w, enc.iv = w, iv
    if enc.w > 400:
        return False, 'too wide'
    s = z3.SolverFor('QF_BV')
    s.set('timeout', timeout)
    fs = [enc.e(h) for h in hs] + [enc.e(ng)]
    s.add(*fs)
    s.add(*enc.side)
    from . import smt
    r = smt.timed_check(s)
    if r == z3.unsat:
        return True, 'bit vectors'
    if r == z3.sat:
        m = s.model()
        out = []
        for x in t.subterms(hs + [goal]).values():
            if x.op == 'sym' and x.s == 'I' and x.id in enc.memo:
                v = m.eval(enc.memo[x.id], model_completion=True).as_signed_long()
                out.append('%s = %d' % (t.pp(x), v))
        return False, 'bit-vector countermodel: ' + '; '.join(out)
    return False, 'timeout'
