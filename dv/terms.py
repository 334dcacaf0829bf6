"""Hash-consed terms with polynomial normal form and constant folding.

The same smart constructors serve symbolic and concrete execution: when every
argument is a constant, the result is a constant.
Sorts: I (integer), R (real), B (bool), A (array int->int with element width),
AR (array int->real), O (output stream contents).
"""
from fractions import Fraction
from math import gcd


class Ctx:
    """Per-task context: digit base B."""
    B = 10


class T:
    __slots__ = ('op', 'a', 'v', 's', 'id', 'rg')

    def __repr__(self):
        return pp(self)


_tab = {}
_n = [0]


_on_reset = []


def reset(B):
    _tab.clear()
    _mk_key.clear()
    _memo.clear()
    _memo_le.clear()
    for f in _on_reset:
        f()
    Ctx.B = B
    for t in (TRUE, FALSE, ZERO, ONE):
        _tab[(t.op, (), t.v, t.s)] = t


def mk(op, a, v, s, rg=None):
    k = (op, tuple(x.id for x in a), v, s)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.v, t.s = op, tuple(a), v, s
        _n[0] += 1
        t.id = _n[0]
        t.rg = rg
        _tab[k] = t
    return t


def num(v):
    if isinstance(v, Fraction):
        if v.denominator == 1:
            v = int(v)
        else:
            return mk('num', (), v, 'R', (v, v))
    return mk('num', (), v, 'I', (v, v))


def sym(name, lo=None, hi=None, sort='I'):
    return mk('sym', (), name, sort, (lo, hi))


def is_num(t):
    return t.op == 'num'


def _init():
    global TRUE, FALSE, ZERO, ONE
    TRUE = mk('true', (), None, 'B')
    FALSE = mk('false', (), None, 'B')
    ZERO = num(0)
    ONE = num(1)


_init()

# ------------------------------------------------------------- polynomials


def _poly_items(t):
    if t.op == 'poly':
        return t.v[0]
    if t.op == 'num':
        return (((), t.v),) if t.v != 0 else ()
    return (((t,), 1),)


_mk_key = {}     # monomial -> (sort key, is real)


def _mkey(m):
    r = _mk_key.get(m)
    if r is None:
        r = ((len(m), tuple(y.id for y in m)), any(y.s == 'R' for y in m))
        _mk_key[m] = r
    return r


def _mk_poly(d):
    """d: dict tuple(T sorted by id) -> coef"""
    items = [(m, c) for m, c in d.items() if c]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return num(c)
        if len(m) == 1 and c == 1:
            return m[0]
    real = False
    ks = []
    for m, c in items:
        k = _mkey(m)
        if type(c) is not int:
            if c.denominator == 1:
                c = int(c)
            else:
                real = True
        real = real or k[1]
        ks.append((k[0], c, m))
    ks.sort()
    key = ('poly', tuple([(k, c) for k, c, m in ks]))
    t = _tab.get(key)
    if t is None:
        items = tuple([(m, c) for k, c, m in ks])
        t = T()
        t.op, t.a, t.v, t.s = 'poly', tuple({y.id: y for m, c in items for y in m}.values()), (items,), 'R' if real else 'I'
        _n[0] += 1
        t.id = _n[0]
        t.rg = None
        _tab[key] = t
    return t


def items(t):
    return _poly_items(t)


def add(*ts):
    if len(ts) == 2:
        a, b = ts
        if a.op == 'num' and b.op == 'num':
            return num(a.v + b.v)
        if a.op == 'num' and a.v == 0:
            return b
        if b.op == 'num' and b.v == 0:
            return a
    d = {}
    for t in ts:
        for m, c in _poly_items(t):
            d[m] = d.get(m, 0) + c
    return _mk_poly(d)


def scale(t, k):
    if k == 1:
        return t
    if k == 0:
        return ZERO
    if t.op == 'num':
        return num(t.v * k)
    return _mk_poly({m: c * k for m, c in _poly_items(t)})


def neg(t):
    return scale(t, -1)


_memo = {}


def sub(a, b):
    if b.op == 'num':
        return add(a, num(-b.v))
    k = (a.id, b.id)
    r = _memo.get(k)
    if r is None:
        d = dict(_poly_items(a))
        for m, c in _poly_items(b):
            d[m] = d.get(m, 0) - c
        r = _memo[k] = _mk_poly(d)
    return r


def mul(a, b):
    if a.op == 'num':
        return scale(b, a.v)
    if b.op == 'num':
        return scale(a, b.v)
    d = {}
    for m1, c1 in _poly_items(a):
        for m2, c2 in _poly_items(b):
            m = tuple(sorted(m1 + m2, key=lambda y: y.id))
            d[m] = d.get(m, 0) + c1 * c2
    return _mk_poly(d)


def addn(a, k):
    return add(a, num(k))


# ------------------------------------------------------------------ ranges

def rng(t):
    """Interval (lo, hi) implied by types alone; None = unbounded."""
    if t.rg is not None:
        return t.rg
    op = t.op
    r = (None, None)
    if op == 'poly':
        lo = hi = 0
        for m, c in t.v[0]:
            ml, mh = 1, 1
            for y in m:
                yl, yh = rng(y)
                # product interval for nonneg factors, else unknown
                if ml is not None and ml >= 0 and yl is not None and yl >= 0:
                    ml = ml * yl
                    mh = None if (mh is None or yh is None) else mh * yh
                elif None not in (ml, mh, yl, yh):
                    ps = [ml * yl, ml * yh, mh * yl, mh * yh]
                    ml, mh = min(ps), max(ps)
                else:
                    ml, mh = None, None
            if c < 0:
                ml, mh = mh, ml
            lo = None if (lo is None or ml is None) else lo + c * ml
            hi = None if (hi is None or mh is None) else hi + c * mh
        r = (lo, hi)
    elif op == 'div':
        lo, hi = rng(t.a[0])
        n = t.v
        r = (None if lo is None else lo // n, None if hi is None else hi // n)
    elif op == 'ite':
        a, b = rng(t.a[1]), rng(t.a[2])
        r = (None if None in (a[0], b[0]) else min(a[0], b[0]),
             None if None in (a[1], b[1]) else max(a[1], b[1]))
    elif op == 'sel':
        w = aw(t.a[0])
        r = (0, 2 ** w - 1) if w else (None, None)
    elif op in ('V', 'R'):
        r = (0, None)
    elif op == 'pow':
        r = (1, None)
    elif op in ('band', 'bor', 'bxor'):
        h = [rng(x)[1] for x in t.a]
        if None in h:
            r = (0, None)
        elif op == 'band':
            r = (0, min(h))
        else:
            r = (0, (1 << max(x.bit_length() for x in h)) - 1)
    elif op == 'shr':
        r = (0, rng(t.a[0])[1])
    elif op == 'shl':
        r = (0, None)
    elif op == 'imod':
        h = rng(t.a[1])[1]
        r = (0, None if h is None else h - 1)
    elif op == 'idiv':
        r = (0, rng(t.a[0])[1])
    elif op == 'max2':
        a, b = rng(t.a[0]), rng(t.a[1])
        r = (None if None in (a[0], b[0]) else max(a[0], b[0]), None if None in (a[1], b[1]) else max(a[1], b[1]))
    elif op == 'min2':
        a, b = rng(t.a[0]), rng(t.a[1])
        r = (None if None in (a[0], b[0]) else min(a[0], b[0]), None if None in (a[1], b[1]) else min(a[1], b[1]))
    t.rg = r
    return r


def nonneg(t):
    lo = rng(t)[0]
    return lo is not None and lo >= 0


# ------------------------------------------------------------- integer ops

def div(a, n):
    """floor(a / n), n a positive python int"""
    if n == 1:
        return a
    if a.op == 'num':
        return num(a.v // n)
    # split off the part divisible by n
    q, r = {}, {}
    for m, c in _poly_items(a):
        if isinstance(c, Fraction):
            return mk('div', (a,), n, 'I')
        cq, cr = divmod(c, n)
        if m != () and cr > n // 2 and n > 2:
            cq, cr = cq + 1, cr - n
        if cq:
            q[m] = cq
        if cr:
            r[m] = cr
    rest = _mk_poly(r)
    lo, hi = rng(rest)
    if lo is not None and hi is not None and lo // n == hi // n:
        return add(_mk_poly(q), num(lo // n))
    # div(div(x, p), n) = div(x, p*n)
    if not q and rest.op == 'div':
        return div(rest.a[0], rest.v * n)
    return add(_mk_poly(q), mk('div', (rest,), n, 'I'))


def mod(a, n):
    return sub(a, scale(div(a, n), n))


def wrap(t, w, signed):
    if not signed:
        return mod(t, 1 << w)
    h = 1 << (w - 1)
    lo, hi = rng(t)
    if lo is not None and hi is not None and -h <= lo and hi < h:
        return t
    return addn(mod(addn(t, h), 1 << w), -h)


def max2(a, b):
    d = sub(a, b)
    lo, hi = rng(d)
    if lo is not None and lo >= 0:
        return a
    if hi is not None and hi <= 0:
        return b
    if a.id > b.id:
        a, b = b, a
    return mk('max2', (a, b), None, 'I')


def min2(a, b):
    d = sub(a, b)
    lo, hi = rng(d)
    if lo is not None and lo >= 0:
        return b
    if hi is not None and hi <= 0:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk('min2', (a, b), None, 'I')


def bitop(op, a, b):
    if a.op == 'num' and b.op == 'num' and a.v >= 0 and b.v >= 0:
        return num({'band': a.v & b.v, 'bor': a.v | b.v, 'bxor': a.v ^ b.v}[op])
    if a.id > b.id:
        a, b = b, a
    if a == b:
        return ZERO if op == 'bxor' else a
    return mk(op, (a, b), None, 'I')


def shr(a, b):
    if b.op == 'num':
        return div(a, 1 << b.v)
    return mk('shr', (a, b), None, 'I')


def shl(a, b):
    if b.op == 'num':
        return scale(a, 1 << b.v)
    return mk('shl', (a, b), None, 'I')


def shlw(a, b, w, signed):
    """left shift in w bits"""
    if b.op == 'num' and 0 <= b.v < w:
        return wrap(scale(a, 1 << b.v), w, signed)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    return mk('shlw', (a, b), (w, signed), 'I', (lo, hi))


def floor_(a):
    if a.op == 'num':
        return num(int(a.v // 1))
    if a.s == 'I':
        return a
    return mk('floor', (a,), None, 'I')


def imod(a, b):
    if b.op == 'num' and b.v > 0:
        return mod(a, b.v)
    return mk('imod', (a, b), None, 'I')


def idiv(a, b):
    if b.op == 'num' and b.v > 0:
        return div(a, b.v)
    return mk('idiv', (a, b), None, 'I')


# ---------------------------------------------------------------- booleans

def boolt(b):
    return TRUE if b else FALSE


def not_(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.a[0]
    if t.op == 'le0' and t.a[0].s == 'I':
        # not (p <= 0)  <=>  p >= 1  <=>  1 - p <= 0
        return le0(sub(ONE, t.a[0]))
    return mk('not', (t,), None, 'B')


def _norm(p):
    its = _poly_items(p)
    if any(isinstance(c, Fraction) for m, c in its):
        l = 1
        for m, c in its:
            if isinstance(c, Fraction):
                l = l * c.denominator // gcd(l, c.denominator)
        its = tuple((m, int(c * l)) for m, c in its)
        if p.s == 'R' and all(y.s == 'I' for m, c in its for y in m):
            pass
    g = 0
    for m, c in its:
        if m != ():
            g = gcd(g, c)
    return its, g


_memo_le = {}


def le0(p):
    r = _memo_le.get(p.id)
    if r is None:
        r = _memo_le[p.id] = _le0(p)
    return r


def _le0(p):
    if p.op == 'num':
        return boolt(p.v <= 0)
    lo, hi = rng(p)
    if hi is not None and hi <= 0:
        return TRUE
    if lo is not None and lo > 0:
        return FALSE
    its, g = _norm(p)
    isint = all(y.s == 'I' for m, c in its for y in m)
    if g > 1:
        d = {}
        for m, c in its:
            if m == ():
                # sum + c <= 0 -> sum/g <= floor(-c/g)
                if isint:
                    c2 = -((-c) // g)
                else:
                    c2 = Fraction(c, g)
                d[m] = c2
            else:
                d[m] = c // g
        p = _mk_poly(d)
    else:
        p = _mk_poly(dict(its))
    return mk('le0', (p,), None, 'B')


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    d = sub(a, b)
    if d.s == 'R' or (d.op == 'num' and isinstance(d.v, Fraction)):
        return not_(le0(neg(d)))
    return le0(addn(d, 1))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.s == 'B':
        return iff(a, b)
    if a.s == 'O':
        if a.op == 'cout' and b.op == 'cout':
            return boolt(a.v == b.v)
        return mk('oeq', tuple(sorted((a, b), key=lambda x: x.id)), None, 'B')
    if a.s in ('A', 'AR'):
        return mk('aeq', tuple(sorted((a, b), key=lambda x: x.id)), None, 'B')
    p = sub(a, b)
    if p.op == 'num':
        return boolt(p.v == 0)
    lo, hi = rng(p)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    its, g = _norm(p)
    isint = all(y.s == 'I' for m, c in its for y in m)
    d = dict(its)
    if g > 1:
        c0 = d.get((), 0)
        if isint and c0 % g:
            return FALSE
        d = {m: (Fraction(c, g)) for m, c in d.items()}
    # sign normalisation
    p = _mk_poly(d)
    first = [c for m, c in _poly_items(p) if m != ()][0]
    if first < 0:
        p = neg(p)
    return mk('eq0', (p,), None, 'B')


def ne(a, b):
    return not_(eq(a, b))


def and_(*ts):
    out = []
    seen = set()
    for t in ts:
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        for x in (t.a if t.op == 'and' else (t,)):
            if x.id not in seen:
                seen.add(x.id)
                out.append(x)
    for x in out:
        if not_(x).id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', out, None, 'B')


def or_(*ts):
    out = []
    seen = set()
    for t in ts:
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        for x in (t.a if t.op == 'or' else (t,)):
            if x.id not in seen:
                seen.add(x.id)
                out.append(x)
    for x in out:
        if not_(x).id in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', out, None, 'B')


def imp(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    if a is not_(b):
        return FALSE
    return and_(imp(a, b), imp(b, a))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.s == 'B':
        return and_(imp(c, a), imp(not_(c), b))
    return mk('ite', (c, a, b), None, a.s if a.s == b.s else 'R')


def b2i(t):
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    return ite(t, ONE, ZERO)


def i2b(t):
    if t.op == 'ite' and t.a[1].op == 'num' and t.a[2].op == 'num':
        return ite(t.a[0], boolt(t.a[1].v != 0), boolt(t.a[2].v != 0))
    return ne(t, ZERO)


# ------------------------------------------------------------------ arrays

def asym(name, w):
    return mk('asym', (), (name, w), 'AR' if w == 0 else 'A')


def carr(vals, w):
    """concrete array; beyond its end reads are out of bounds garbage (0)"""
    return mk('carr', (), (tuple(vals), w), 'AR' if w == 0 else 'A')


def fill(v, w):
    return mk('fill', (v,), w, 'AR' if w == 0 else 'A')


def aw(a):
    """element bit width, 0 for real elements"""
    while True:
        if a.op in ('asym', 'carr'):
            return a.v[1]
        if a.op == 'fill':
            return a.v
        if a.op == 'aite':
            a = a.a[1]
            continue
        a = a.a[0]


def store(a, i, v):
    if a.op == 'carr' and i.op == 'num' and v.op == 'num':
        l = list(a.v[0])
        if 0 <= i.v:
            while len(l) <= i.v:
                l.append(0)
            l[i.v] = v.v
        return carr(l, a.v[1])
    if a.op == 'store' and a.a[1] is i:
        a = a.a[0]
    if a.op == 'fill' and a.a[0] is v:
        return a
    return mk('store', (a, i, v), None, a.s)


def sel(a, i):
    while True:
        if a.op == 'carr':
            if i.op == 'num':
                return num(a.v[0][i.v]) if 0 <= i.v < len(a.v[0]) else ZERO
        elif a.op == 'fill':
            return a.a[0]
        elif a.op == 'store':
            d = sub(a.a[1], i)
            if d.op == 'num':
                if d.v == 0:
                    return a.a[2]
                a = a.a[0]
                continue
            lo, hi = rng(d)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                a = a.a[0]
                continue
        elif a.op == 'rfill':
            d = sub(i, a.a[1])
            lo, hi = rng(d)
            if lo is not None and lo >= 0:
                return a.a[2]
            if hi is not None and hi < 0:
                a = a.a[0]
                continue
        elif a.op == 'ins':
            d = sub(i, a.a[1])
            lo, hi = rng(d)
            if d.op == 'num' and d.v == 0:
                return a.a[2]
            if hi is not None and hi < 0:
                a = a.a[0]
                continue
            if lo is not None and lo > 0:
                a, i = a.a[0], addn(i, -1)
                continue
        elif a.op == 'slice':
            a, i = a.a[0], add(i, a.a[1])
            continue
        elif a.op == 'stride':
            a, i = a.a[0], addn(scale(i, 2), a.v)
            continue
        elif a.op == 'aneg':
            return neg(sel(a.a[0], i))
        elif a.op == 'rev':
            a, i = a.a[0], addn(sub(a.a[1], i), -1)
            continue
        elif a.op == 'del':
            d = sub(i, a.a[1])
            lo, hi = rng(d)
            if hi is not None and hi < 0:
                a = a.a[0]
                continue
            if lo is not None and lo >= 0:
                a, i = a.a[0], addn(i, 1)
                continue
        break
    return mk('sel', (a, i), None, 'R' if a.s == 'AR' else 'I')


def rfill(a, frm, v):
    """elements at index >= frm become v"""
    if a.op == 'carr' and frm.op == 'num' and v.op == 'num':
        # concrete: caller knows the new size; keep prefix, remember default
        return mk('cfill', (), None, a.s)  # replaced by resize_carr
    return mk('rfill', (a, frm, v), None, a.s)


def ins(a, p, v):
    if a.op == 'carr' and p.op == 'num' and v.op == 'num':
        l = list(a.v[0])
        l.insert(p.v, v.v)
        return carr(l, a.v[1])
    if p.op == 'num' and a.op == 'fill' and a.a[0] is v:
        return a
    return mk('ins', (a, p, v), None, a.s)


def slice_(a, k):
    """elements from index k on"""
    if k.op == 'num' and k.v == 0:
        return a
    return mk('slice', (a, k), None, a.s)


def rev(a, n):
    """the first n elements in reverse order"""
    return mk('rev', (a, n), None, a.s)


def dele(a, p):
    if a.op == 'carr' and p.op == 'num':
        l = list(a.v[0])
        if 0 <= p.v < len(l):
            del l[p.v]
        return carr(l, a.v[1])
    return mk('del', (a, p), None, a.s)


# -------------------------------------------------------------- digit theory

def pow_(n):
    """B**n for n >= 0, 1 for n < 0"""
    B = Ctx.B
    if n.op == 'num':
        return num(B ** n.v if n.v >= 0 else 1)
    # split sums of non-negative parts: pow(c + x + y) = B^c pow(x) pow(y)
    c0 = 0
    parts = []
    ok = True
    for m, c in _poly_items(n):
        if m == ():
            c0 = c
            ok = ok and c >= 0
        else:
            t = m[0] if len(m) == 1 else _mk_poly({m: 1})
            ok = ok and c > 0 and c <= 2 and nonneg(t)
            parts.append((t, c))
    if ok and (c0 or len(parts) > 1 or parts[0][1] > 1) and c0 < 64:
        r = num(B ** c0)
        for t, c in parts:
            for _ in range(c):
                r = mul(r, mk('pow', (t,), None, 'I'))
        return r
    return mk('pow', (n,), None, 'I')


def V(a, n):
    B = Ctx.B
    if n.op == 'num':
        if n.v <= 0:
            return ZERO
        if a.op == 'carr':
            r = 0
            for x in reversed(a.v[0][:n.v]):
                r = r * B + x
            return num(r)
        if n.v <= 4:
            r = ZERO
            for j in range(n.v):
                r = add(r, scale(sel(a, num(j)), B ** j))
            return r
    if a.op == 'fill' and a.a[0] is ZERO:
        return ZERO
    if a.op == 'rev' and a.a[1] is n:
        return R(a.a[0], n)
    c = const_part(n)
    if c >= 1 and n.op == 'poly':
        m = addn(n, -1)
        if nonneg(m):
            return add(V(a, m), mul(sel(a, m), pow_(m)))
    while a.op == 'store':
        a0, i, v = a.a
        lo = rng(sub(i, n))[0]
        if lo is not None and lo >= 0:
            a = a0
            continue
        lo = rng(sub(n, i))[0]
        if lo is not None and lo >= 1 and nonneg(i):
            return add(V(a0, n), mul(sub(v, sel(a0, i)), pow_(i)))
        break
    return mk('V', (a, n), None, 'I')


def const_part(n):
    if n.op == 'num':
        return n.v
    if n.op == 'poly':
        for m, c in n.v[0]:
            if m == ():
                return c
    return 0


def R(a, k):
    """Horner value of the first k elements, most significant first"""
    B = Ctx.B
    if k.op == 'num':
        if k.v <= 0:
            return ZERO
        if a.op == 'carr':
            r = 0
            for x in a.v[0][:k.v]:
                r = r * B + x
            return num(r)
        if k.v <= 4:
            r = ZERO
            for j in range(k.v):
                r = add(scale(r, B), sel(a, num(j)))
            return r
    if k.op == 'poly' and const_part(k) >= 1:
        m = addn(k, -1)
        if nonneg(m):
            return add(scale(R(a, m), B), sel(a, m))
    return mk('R', (a, k), None, 'I')


def valid(a, n):
    """all digits below index n are < B"""
    B = Ctx.B
    w = aw(a)
    if w and B == 1 << w:
        return TRUE
    if n.op == 'num':
        if n.v <= 0:
            return TRUE
        if a.op == 'carr':
            return boolt(all(x < B for x in a.v[0][:n.v]))
        if n.v <= 4:
            return and_(*[lt(sel(a, num(j)), num(B)) for j in range(n.v)])
    if a.op == 'fill':
        return or_(le(n, ZERO), lt(a.a[0], num(B)))
    return mk('valid', (a, n), None, 'B')


def aeqn(a, b, n):
    """a and b agree on all indices below n"""
    if a is b:
        return TRUE
    if n.op == 'num':
        if n.v <= 0:
            return TRUE
        if a.op == 'carr' and b.op == 'carr':
            if a.s == 'AR':
                return boolt(_close(a.v[0], b.v[0], 0, n.v))
            return boolt(list(a.v[0][:n.v]) == list(b.v[0][:n.v]))
        if n.v <= 4:
            return and_(*[eq(sel(a, num(j)), sel(b, num(j))) for j in range(n.v)])
    if a.id > b.id:
        a, b = b, a
    return mk('aeqn', (a, b, n), None, 'B')


def aeqr(a, b, i, n):
    """a and b agree on all indices from i up to, not including, n"""
    if a is b:
        return TRUE
    if i.op == 'num' and n.op == 'num':
        if n.v <= i.v:
            return TRUE
        if a.op == 'carr' and b.op == 'carr' and a.s == 'AR':
            return boolt(_close(a.v[0], b.v[0], i.v, n.v))
    if a.id > b.id:
        a, b = b, a
    return mk('aeqr', (a, b, i, n), None, 'B')


def pow2p(n):
    """n is a power of two"""
    if n.op == 'num':
        return boolt(n.v > 0 and n.v & (n.v - 1) == 0)
    return mk('pow2p', (n,), None, 'B')


def near(re, c, n):
    """for all i < n: |re[i] - c[i]| <= 1/4 and c[i] <= 2^31"""
    return mk('near', (re, c, n), None, 'B')


# ------------------------------------------- real and complex lists (C19 only)
# In the real interpretation a double is a real number; a complex list is a pair of arrays.

def _close(x, y, lo, hi):
    """concrete lists agree up to the rounding of the concrete runs"""
    n = max(len(x), len(y), 0)
    x, y = [float(v) for v in x[:n]], [float(v) for v in y[:n]]
    x += [0.0] * (n - len(x))
    y += [0.0] * (n - len(y))
    m = max([abs(v) for v in x + y] or [0])
    return all(abs(a - b) <= 1e-7 * (m + 1) for a, b in zip(x[max(lo, 0):hi], y[max(lo, 0):hi]))


def stride(a, c):
    """every second element, from the c-th (0 or 1) on"""
    if a.op == 'carr':
        return carr(a.v[0][c::2], a.v[1])
    return mk('stride', (a,), c, a.s)


def aneg(a):
    """the negated elements"""
    if a.op == 'carr':
        return carr([-v for v in a.v[0]], a.v[1])
    if a.op == 'aneg':
        return a.a[0]
    return mk('aneg', (a,), None, a.s)


def recip(x):
    if x.op == 'num' and x.v != 0:
        return num(Fraction(1, x.v) if isinstance(x.v, int) else 1 / x.v)
    return mk('recip', (x,), None, 'R')


def trig(f, x):
    """cosine ('cosr') or sine ('sinr') of a real number"""
    import math
    if x.op == 'num':
        return num(Fraction((math.cos if f == 'cosr' else math.sin)(float(x.v))))
    its = items(x)
    k = min(its, key=lambda mc: _mkey(mc[0])[0])
    if k[1] < 0:
        y = mk(f, (neg(x),), None, 'R')
        return y if f == 'cosr' else neg(y)
    return mk(f, (x,), None, 'R')


def _fl(a, n):
    v = [float(x) for x in a.v[0][:n]]
    return v + [0.0] * (n - len(v))


def _transform(kind, a, b, n):
    import cmath
    import math
    z = [complex(x, y) for x, y in zip(_fl(a, n), _fl(b, n))]

    def dft_(z):
        n = len(z)
        w = [cmath.exp(-2j * math.pi * k / n) for k in range(n)]
        return [sum(z[j] * w[j * k % n] for j in range(n)) for k in range(n)]
    if kind == 'dft':
        r = dft_(z)
    elif kind == 'idft':
        r = [x.conjugate() / n for x in dft_([x.conjugate() for x in z])]
    else:
        r = []
        for i in range(n):
            c = z[(n - i) % n].conjugate()
            x3 = (z[i] + c) * (z[i] - c)
            r.append(complex(x3.imag / 4, -x3.real / 4))
    return (tuple(Fraction(x.real) for x in r), tuple(Fraction(x.imag) for x in r))


_tr = {}


def transform(kind, a, b, n, part):
    """the real ('re') or imaginary ('im') parts of dft, idft or cnv of the first n elements of the list with parts a and b"""
    if a.op == 'carr' and b.op == 'carr' and n.op == 'num':
        if not 0 < n.v <= 4096 or n.v & (n.v - 1):
            raise KeyError('transform of that length')
        k = (kind, a.v, b.v, n.v)
        if k not in _tr:
            if len(_tr) > 2000:
                _tr.clear()
            try:
                _tr[k] = _transform(kind, a, b, n.v)
            except (OverflowError, ValueError):
                raise KeyError('transform of such values')
        return carr(_tr[k][0 if part == 're' else 1], 0)
    return mk(kind, (a, b, n), part, 'AR')


# ------------------------------------------------------------------ output

def osym(name):
    return mk('osym', (), name, 'O')


def cout(s):
    return mk('cout', (), s, 'O')


def emitC(o, ch):
    if o.op == 'cout' and ch.op == 'num':
        return cout(o.v + (chr(ch.v),))
    return mk('emitC', (o, ch), None, 'O')


def emitN(o, n):
    if n.op == 'num':
        for c in str(n.v):
            o = emitC(o, num(ord(c)))
        return o
    return mk('emitN', (o, n), None, 'O')


def render(o, a, hi, lo):
    """o followed by the numbers a[hi-1], ..., a[lo]"""
    if hi is lo:
        return o
    if a.op == 'carr' and hi.op == 'num' and lo.op == 'num':
        for j in range(hi.v - 1, lo.v - 1, -1):
            o = emitN(o, sel(a, num(j)))
        return o
    return mk('render', (o, a, hi, lo), None, 'O')


# ------------------------------------------------------------- traversal

def subterms(ts):
    seen = {}
    st = list(ts)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen[t.id] = t
        st.extend(t.a)
    return seen


_REB = {}


def rebuild(t, args):
    op = t.op
    if op == 'poly':
        raise AssertionError
    f = _REB.get(op)
    if f:
        return f(t, args)
    return mk(op, args, t.v, t.s, t.rg if op == 'sym' else None)


_REB.update({
    'div': lambda t, a: div(a[0], t.v), 'ite': lambda t, a: ite(*a), 'sel': lambda t, a: sel(*a),
    'store': lambda t, a: store(*a), 'fill': lambda t, a: fill(a[0], t.v), 'rfill': lambda t, a: rfill(*a),
    'ins': lambda t, a: ins(*a), 'del': lambda t, a: dele(*a), 'V': lambda t, a: V(*a), 'R': lambda t, a: R(*a),
    'valid': lambda t, a: valid(*a), 'pow': lambda t, a: pow_(*a), 'le0': lambda t, a: le0(*a),
    'eq0': lambda t, a: eq(a[0], ZERO), 'not': lambda t, a: not_(*a), 'and': lambda t, a: and_(*a),
    'or': lambda t, a: or_(*a), 'max2': lambda t, a: max2(*a), 'min2': lambda t, a: min2(*a),
    'band': lambda t, a: bitop('band', *a), 'bor': lambda t, a: bitop('bor', *a),
    'bxor': lambda t, a: bitop('bxor', *a), 'shr': lambda t, a: shr(*a), 'shl': lambda t, a: shl(*a),
    'imod': lambda t, a: imod(*a), 'idiv': lambda t, a: idiv(*a), 'emitC': lambda t, a: emitC(*a),
    'emitN': lambda t, a: emitN(*a), 'render': lambda t, a: render(*a), 'oeq': lambda t, a: eq(*a),
    'aeq': lambda t, a: eq(*a), 'slice': lambda t, a: slice_(*a), 'rev': lambda t, a: rev(*a),
    'aeqn': lambda t, a: aeqn(*a), 'aeqr': lambda t, a: aeqr(*a), 'pow2p': lambda t, a: pow2p(*a), 'near': lambda t, a: near(*a),
    'stride': lambda t, a: stride(a[0], t.v), 'aneg': lambda t, a: aneg(a[0]), 'recip': lambda t, a: recip(a[0]),
    'cosr': lambda t, a: trig('cosr', a[0]), 'sinr': lambda t, a: trig('sinr', a[0]),
    'dft': lambda t, a: transform('dft', a[0], a[1], a[2], t.v), 'idft': lambda t, a: transform('idft', a[0], a[1], a[2], t.v),
    'cnv': lambda t, a: transform('cnv', a[0], a[1], a[2], t.v),
    'shlw': lambda t, a: shlw(a[0], a[1], *t.v), 'floor': lambda t, a: floor_(a[0]),
})


def subst(t, m, memo=None):
    """m: dict id -> T"""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    r = m.get(t.id)
    if r is not None:
        return r
    r = memo.get(t.id)
    if r is not None:
        return r
    if not t.a:
        r = t
    elif t.op == 'poly':
        ch = {y.id: _subst(y, m, memo) for y in t.a}
        if all(ch[y.id] is y for y in t.a):
            r = t
        else:
            r = ZERO
            acc = []
            for mono, c in t.v[0]:
                p = num(c)
                for y in mono:
                    p = mul(p, ch[y.id])
                acc.append(p)
            r = add(*acc) if len(acc) != 1 else acc[0]
    else:
        args = [_subst(y, m, memo) for y in t.a]
        if all(x is y for x, y in zip(args, t.a)):
            r = t
        else:
            r = rebuild(t, args)
    # a rewritten term may itself be a key
    memo[t.id] = r
    return r


def pp(t, d=0):
    if t is None:
        return 'None'
    op = t.op
    if op == 'num':
        return str(t.v)
    if op == 'sym' or op == 'osym':
        return str(t.v)
    if op == 'asym':
        return t.v[0]
    if op == 'carr':
        return repr(list(t.v[0]))
    if op in ('true', 'false'):
        return op
    if op == 'cout':
        return repr(''.join(t.v))
    if d > 12:
        return '...'
    if op == 'poly':
        out = []
        for m, c in t.v[0]:
            s = '*'.join(pp(y, d + 1) for y in m)
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append('-' + s)
            else:
                out.append('%s*%s' % (c, s))
        return '(' + ' + '.join(out) + ')'
    if op == 'le0':
        l, r = [], []
        for m, c in _poly_items(t.a[0]):
            (l if c > 0 else r).append((m, abs(c)))
        f = lambda xs: pp(_mk_poly(dict(xs)), d + 1)
        return '%s <= %s' % (f(l), f(r))
    if op == 'eq0':
        l, r = [], []
        for m, c in _poly_items(t.a[0]):
            (l if c > 0 else r).append((m, abs(c)))
        f = lambda xs: pp(_mk_poly(dict(xs)), d + 1)
        return '%s == %s' % (f(l), f(r))
    if op in ('dft', 'idft', 'cnv'):
        return '%s(%s, %s, %s).%s' % (op, pp(t.a[0], d + 1), pp(t.a[1], d + 1), pp(t.a[2], d + 1), t.v)
    if op == 'stride':
        return '%s(%s)' % ('odds' if t.v else 'evens', pp(t.a[0], d + 1))
    if op == 'sel':
        return '%s[%s]' % (pp(t.a[0], d + 1), pp(t.a[1], d + 1))
    if op == 'div':
        return '(%s div %s)' % (pp(t.a[0], d + 1), t.v)
    if op == 'not':
        return '!(%s)' % pp(t.a[0], d + 1)
    if op == 'and':
        return '(' + ' && '.join(pp(x, d + 1) for x in t.a) + ')'
    if op == 'or':
        return '(' + ' || '.join(pp(x, d + 1) for x in t.a) + ')'
    return '%s(%s)' % (op, ', '.join(pp(x, d + 1) for x in t.a))
