"""Run-time values of the symbolic executor."""
from . import terms as t


class Refuse(Exception):
    """the function uses something the verifier does not model"""


class Loc:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path

    def f(self, name):
        return Loc(self.cell, self.path + (('f', name),))

    def i(self, idx):
        return Loc(self.cell, self.path + (('i', idx),))

    def key(self):
        return (self.cell, tuple((k, v.id if k == 'i' else v) for k, v in self.path))

    def __eq__(self, o):
        return isinstance(o, Loc) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return 'Loc(%s%s)' % (self.cell, ''.join('.%s' % v if k == 'f' else '[%s]' % v for k, v in self.path))


class RecV:
    __slots__ = ('n', 'f')

    def __init__(self, n, f):
        self.n, self.f = n, f

    def set(self, k, v):
        d = dict(self.f)
        d[k] = v
        return RecV(self.n, d)

    def __repr__(self):
        return 'Rec%r' % (self.f,)


class VecV:
    """std::vector / array: size, leaf arrays, element type, ghost tag"""
    __slots__ = ('size', 'arrs', 'et', 'ghost')

    def __init__(self, size, arrs, et, ghost=None):
        self.size, self.arrs, self.et, self.ghost = size, arrs, et, ghost

    def upd(self, size=None, arrs=None, ghost=None):
        return VecV(self.size if size is None else size, self.arrs if arrs is None else arrs, self.et, ghost)

    def arr(self):
        return next(iter(self.arrs.values()))

    def __repr__(self):
        return 'Vec(%s,%s)' % (self.size, list(self.arrs.values()))


class IterV:
    """iterator or raw pointer into a container: location of the container and index"""
    __slots__ = ('base', 'idx', 'rev')

    def __init__(self, base, idx, rev=False):
        self.base, self.idx, self.rev = base, idx, rev

    def __repr__(self):
        return 'Iter(%s,%s)' % (self.base, self.idx)


class PtrV:
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class LamV:
    __slots__ = ('fid', 'caps', 'this')

    def __init__(self, fid, caps, this=None):
        self.fid, self.caps, self.this = fid, caps, this


class StrV:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s


class ILV:
    """std::initializer_list: location of its backing array"""
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class OpaqueV:
    """a value nothing is known about and nothing may depend on (allocators, ...)"""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n


class FnV:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class Thrown:
    __slots__ = ('ty', 'uid', 'why')

    def __init__(self, ty, uid, why=''):
        self.ty, self.uid, self.why = ty, uid, why

    def __repr__(self):
        return 'Thrown(%s)' % self.ty


def same_value(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, t.T):
        return a is b
    if isinstance(a, RecV):
        return a.f.keys() == b.f.keys() and all(same_value(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, VecV):
        return a.size is b.size and a.arrs.keys() == b.arrs.keys() and all(a.arrs[k] is b.arrs[k] for k in a.arrs) and a.ghost is b.ghost
    if isinstance(a, IterV):
        return same_value(a.base, b.base) and a.idx is b.idx and a.rev == b.rev
    if isinstance(a, Loc):
        return a == b
    if isinstance(a, PtrV):
        return a.loc == b.loc
    if isinstance(a, ILV):
        return a.loc == b.loc
    if isinstance(a, StrV):
        return a.s == b.s
    if isinstance(a, OpaqueV):
        return True
    if isinstance(a, LamV):
        return a.fid == b.fid and a.caps.keys() == b.caps.keys() and all(same_value(a.caps[k], b.caps[k]) for k in a.caps)
    if isinstance(a, FnV):
        return a.f.get('id') == b.f.get('id')
    return False


def leaves(v, path=()):
    """yield (path, kind, Term) for scalar leaves; kind in int/size/arr/idx/out/ghost"""
    if isinstance(v, t.T):
        yield path, ('out' if v.s == 'O' else 'bool' if v.s == 'B' else 'arrval' if v.s in ('A', 'AR') else 'int'), v
    elif isinstance(v, RecV):
        for k in v.f:
            yield from leaves(v.f[k], path + (('f', k),))
    elif isinstance(v, VecV):
        yield path + (('size',),), 'size', v.size
        for k in v.arrs:
            yield path + (('arr', k),), 'arr', v.arrs[k]
    elif isinstance(v, IterV):
        yield path + (('idx',),), 'idx', v.idx


def set_leaf(v, path, x):
    if not path:
        return x
    p, rest = path[0], path[1:]
    if p[0] == 'f':
        return v.set(p[1], set_leaf(v.f[p[1]], rest, x))
    if p[0] == 'size':
        return VecV(x, v.arrs, v.et, None)
    if p[0] == 'arr':
        d = dict(v.arrs)
        d[p[1]] = x
        return VecV(v.size, d, v.et, None)
    if p[0] == 'ghost':
        return v
    if p[0] == 'idx':
        return IterV(v.base, x, v.rev)
    raise AssertionError(p)


def get_leaf(v, path):
    for p in path:
        if p[0] == 'f':
            if not isinstance(v, RecV) or p[1] not in v.f:
                return None
            v = v.f[p[1]]
        elif p[0] == 'size':
            if not isinstance(v, VecV):
                return None
            v = v.size
        elif p[0] == 'arr':
            if not isinstance(v, VecV):
                return None
            v = v.arrs.get(p[1])
        elif p[0] == 'idx':
            if not isinstance(v, IterV):
                return None
            v = v.idx
    return v


REAL = 'double arithmetic is taken as arithmetic on real numbers (rounding is left out), and the double nearest to pi as pi'
