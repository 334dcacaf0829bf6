"""Concrete inputs for the executor (trace generation)."""
from . import terms as t
from .terms import Ctx
from .values import *


def digits_of(v):
    B = Ctx.B
    out = []
    while v:
        out.append(v % B)
        v //= B
    return out


def rnd_digits(rng, n, canon=True):
    B = Ctx.B
    mode = rng.randrange(5)
    if mode == 0:
        d = [B - 1] * n
    elif mode == 1:
        d = [rng.choice([0, 0, 1, B - 1]) for _ in range(n)]
    else:
        d = [rng.randrange(B) for _ in range(n)]
    if canon and n and d[-1] == 0:
        d[-1] = rng.randrange(1, B)
    return d


def pair(rng, k):
    """two digit strings, related in interesting ways"""
    B = Ctx.B
    n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
    a = rnd_digits(rng, n)
    m = k % 6
    if m == 0:
        b = rnd_digits(rng, rng.choice([0, 1, 2, 3, 4]))
    elif m == 1:
        b = list(a)
        if b and rng.random() < .8:
            i = rng.randrange(len(b))
            b[i] = rng.randrange(B)
            if b[-1] == 0:
                b[-1] = 1
    elif m == 2:
        v = sum(x * B ** i for i, x in enumerate(a)) + rng.choice([-2, -1, 0, 1, 2])
        b = digits_of(max(v, 0))
    elif m == 3:
        v = sum(x * B ** i for i, x in enumerate(a)) // rng.choice([1, 2, 3, 5, B])
        b = digits_of(v)
    elif m == 4:
        b = rnd_digits(rng, max(0, n - rng.choice([0, 0, 1, 2])))
    else:
        b = rnd_digits(rng, rng.choice([1, 1, 2]))
    if rng.random() < .3:
        a, b = b, a
    return a, b


class Gen:
    def __init__(self, ex, rng, k):
        self.ex, self.rng, self.k = ex, rng, k
        self.a, self.b = pair(rng, k)
        self.n = 0

    def digits(self):
        self.n += 1
        if self.n == 1:
            return self.a
        if self.n == 2:
            return self.b
        return rnd_digits(self.rng, self.rng.randrange(4))

    def vec(self, et, vals=None):
        ex, rng = self.ex, self.rng
        lv = ex.elem_leaves(et)
        if len(lv) == 1 and list(lv.values())[0] > 1:
            (p, w), = lv.items()
            vals = self.digits() if vals is None else vals
            if Ctx.B > (1 << w):
                vals = [x % (1 << w) for x in vals]
            return VecV(t.num(len(vals)), {p: t.carr(vals, w)}, et)
        n = rng.choice([1, 1, 2, 4, 8])
        return VecV(t.num(n), {p: t.carr([rng.randrange(5) if not w else rng.randrange(1 << w) for _ in range(n)], w) for p, w in lv.items()}, et)

    def value(self, ty):
        ex, rng = self.ex, self.rng
        k = ty['k']
        if k == 'int':
            hi = (1 << ty['w']) - 1 if not ty['s'] else (1 << (ty['w'] - 1)) - 1
            if ty['w'] == 64:
                return t.num(rng.choice([0, 1, 2, 3, rng.randrange(6), rng.randrange(1 << rng.randrange(1, 60))]))
            return t.num(min(hi, rng.choice([0, 1, rng.randrange(Ctx.B), hi])))
        if k == 'enum':
            vs = [int(v) for _, v in ty['vals']]
            return t.num(rng.choice(vs[:2] * 3 + vs))
        if k == 'bool':
            return t.boolt(rng.random() < .5)
        if k == 'float':
            return t.num(rng.randrange(100))
        if k == 'rec':
            b = ty['b']
            if b == 'std::vector':
                return self.vec(ty['a'][0])
            if b == 'std::basic_ostream':
                return t.cout(())
            if b == 'std::complex':
                return RecV(ty['n'], {'re': t.num(rng.randrange(9)), 'im': t.num(rng.randrange(9))})
            r = ex.db.records.get(ty['n'])
            if r and 'f' in r and not r.get('bases'):
                v = RecV(ty['n'], {f['n']: self.value(f['t']) for f in r['f']})
                if 'descriptor' in v.f and 'numData' in v.f:
                    if v.f['descriptor'].v >= 2:
                        v = v.set('numData', v.f['numData'].upd(size=t.ZERO, arrs={p: t.carr((), a.v[1]) for p, a in v.f['numData'].arrs.items()}))
                    elif v.f['numData'].size is t.ZERO:
                        v = v.set('descriptor', t.ZERO)
                return v
        return None


def concrete_setup(ex, st, fn, spec, alias, rng, k):
    g = Gen(ex, rng, k)
    objs, args, this = [], [], None
    if 'cls' in fn and not fn.get('static') and fn['cls'].get('b') != 'lambda':
        from .verify import is_ctor
        if is_ctor(fn):
            v = RecV(fn['cls']['n'], {})
        else:
            ty = dict(fn['cls'])
            ty['k'] = 'rec'
            v = g.value(ty)
            if v is None:
                return None
        this = Loc(ex.cell(st, ('obj', 'this'), v, scope=False))
        objs.append(this)
    for i, p in enumerate(fn['params']):
        ty = p['t']
        name = p.get('n') or 'arg%d' % i
        if alias == '01' and len(objs) == 1:
            a = objs[0]
        elif ty['k'] == 'ref':
            v = g.value(ty['t'])
            if v is None:
                return None
            a = Loc(ex.cell(st, ('obj', name), v, scope=False))
        elif ty['k'] == 'rec' and ty['b'] == 'std::initializer_list':
            d = g.digits()[::-1]
            d = [0] * rng.choice([0, 0, 1, 2]) + d
            a = ILV(Loc(ex.cell(st, ('il', name), g.vec(ty['a'][0], d), scope=False)))
        else:
            a = g.value(ty)
            if a is None:
                return None
        args.append(a)
        objs.append(a)
    return this, args, objs
