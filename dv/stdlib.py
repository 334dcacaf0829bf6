"""Axiomatic semantics of the standard library entities the code uses.

These are the trusted contracts on dependencies: every entity modelled here is
assumed to behave as the C++11 standard says. Anything else is refused.
"""
from fractions import Fraction
from . import terms as t
from . import smt
from .values import *
from .astdb import base_name, _strip

MAXSZ = 1 << 56


def _vals(ex, st, vs):
    return [ex.rval(st, v) for v in vs]


def elem_conv(ex, st, et, v):
    """argument value as an element value"""
    v = ex.rval(st, v)
    return v


def vec_grow(ex, st, loc, v, newsize):
    if ex.sym:
        lo, hi = t.rng(newsize)
        if hi is None or hi > MAXSZ:
            st.assume(smt.mk_le0(t.sub(newsize, t.num(MAXSZ))))
    return newsize


def small(n):
    if n.v > 1000000:
        from .exec import Fuel
        raise Fuel()


def fill_vec(ex, st, et, n, x):
    lv = ex.elem_leafvals(et, x)
    if not ex.sym:
        small(n)
        return VecV(n, {p: t.carr([lv[p].v] * n.v, w) for p, w in ex.elem_leaves(et).items()}, et)
    return VecV(n, {p: t.fill(lv[p], w) for p, w in ex.elem_leaves(et).items()}, et)


def cut(ex, vec):
    """drop concrete elements beyond the size (they do not exist)"""
    if ex.sym:
        return vec
    n = vec.size.v
    return vec.upd(arrs={p: t.carr((list(a.v[0]) + [0] * n)[:n], a.v[1]) for p, a in vec.arrs.items()}, ghost=vec.ghost)


def resized(ex, st, vec, n, x):
    if not ex.sym:
        small(n)
        lv = ex.elem_leafvals(vec.et, x)
        out = {}
        k = min(n.v, vec.size.v)
        for p, a in vec.arrs.items():
            l = (list(a.v[0]) + [0] * k)[:k]
            l += [lv[p].v] * (n.v - len(l))
            out[p] = t.carr(l, a.v[1])
        return vec.upd(size=n, arrs=out)
    # shrinking keeps the array; growing fills from the old size
    if ex.entailed(st, t.le(n, vec.size)):
        return vec.upd(size=n, ghost=vec.ghost)
    if vec.size is t.ZERO:
        return fill_vec(ex, st, vec.et, n, x)
    lv = ex.elem_leafvals(vec.et, x)
    return vec.upd(size=n, arrs={p: t.rfill(a, vec.size, lv[p]) for p, a in vec.arrs.items()})


def il_vec(ex, st, il):
    return ex.load(st, il.loc)


def opaque(v):
    return isinstance(v, OpaqueV)


def ctor(ex, st, e, f, cls, vs):
    b = cls['b']
    if b == 'std::vector':
        et = cls['a'][0]
        kind = f.get('ctor')
        ps = f.get('ps', [])
        if kind == 'default' and not vs:
            return [(st, ex.empty_vec(et))]
        if kind == 'move':
            src = vs[0]
            v = ex.rval(st, src)
            if isinstance(src, Loc):
                ex.save(st, src, ex.empty_vec(et))
            return [(st, v)]
        if kind == 'copy':
            out = ex.alloc(st, 'vector copy')
            return out + [(st, ex.rval(st, vs[0]))]
        args = [ex.rval(st, v) for v in vs]
        args = [a for a in args if not opaque(a)]
        if len(args) == 1 and isinstance(args[0], ILV):
            out = ex.alloc(st, 'vector from list')
            v = il_vec(ex, st, args[0])
            return out + [(st, VecV(v.size, v.arrs, et))]
        if args and isinstance(args[0], t.T):
            out = ex.alloc(st, 'vector(n)')
            vec_grow(ex, st, None, None, args[0])
            x = args[1] if len(args) > 1 else ex.zero_elem(et)
            return out + [(st, fill_vec(ex, st, et, args[0], x))]
        if len(args) == 1 and isinstance(args[0], VecV):
            out = ex.alloc(st, 'vector copy')
            return out + [(st, args[0])]
        if len(args) == 2 and isinstance(args[0], IterV) and isinstance(args[1], IterV) and args[0].base == args[1].base:
            a, z = args
            src = ex.load(st, a.base)
            out = ex.alloc(st, 'vector(range)')
            lo, hi = (z.idx, a.idx) if a.rev else (a.idx, z.idx)
            ex.oblige(st, 'bounds', t.and_(t.ge(lo, t.ZERO), t.le(lo, hi), t.le(hi, src.size)), e.get('l'), 'iterator range within the container')
            n = t.sub(hi, lo)
            if not ex.sym:
                arrs = {p: t.carr(list(x.v[0][lo.v:hi.v])[::-1 if a.rev else 1], x.v[1]) for p, x in src.arrs.items()}
                return out + [(st, VecV(n, arrs, et))]
            if a.rev:
                arrs = {p: t.rev(x, hi) for p, x in src.arrs.items()}
            else:
                arrs = {p: t.slice_(x, lo) for p, x in src.arrs.items()}
            return out + [(st, VecV(n, arrs, et))]
        raise Refuse('vector constructor %s' % f['qn'])
    if b == 'std::allocator':
        return [(st, OpaqueV('allocator'))]
    if b == 'std::complex':
        args = _vals(ex, st, vs)
        if len(args) == 1 and isinstance(args[0], RecV):
            return [(st, args[0])]
        args = list(args) + [t.ZERO] * (2 - len(args))
        return [(st, RecV(cls['n'], {'re': args[0], 'im': args[1]}))]
    if b in ('__gnu_cxx::__normal_iterator', 'std::reverse_iterator', 'std::move_iterator'):
        v = ex.rval(st, vs[0]) if vs else None
        if not isinstance(v, IterV):
            raise Refuse('iterator constructor')
        if b == 'std::reverse_iterator' and not v.rev and f.get('ctor') not in ('copy', 'move'):
            v = IterV(v.base, v.idx, True)
        return [(st, v)]
    if b == 'std::initializer_list':
        return [(st, ex.rval(st, vs[0]))] if vs else [(st, ILV(Loc(ex.cell(st, ('il', e['_n']), ex.empty_vec(cls['a'][0])))))]
    if b in ('std::basic_string', 'std::allocator_traits'):
        return [(st, OpaqueV(b))]
    if b in ('std::exception', 'std::bad_alloc') or ex.is_std_exception(b):
        return [(st, RecV(cls['n'], {}))]
    raise Refuse('constructor of %s' % b)


def call(ex, st, e, f, obj, vs):
    qn = _strip(f['qn'])
    name = base_name(f)
    cb = f['cls']['b'] if 'cls' in f and 'b' in f['cls'] else None
    m = DISPATCH.get((cb, name)) or DISPATCH.get((None, qn))
    if m is None and cb is not None and cb.startswith('std::__cxx11'):
        m = None
    if m is None:
        raise Refuse('library function %s at %s' % (f['qn'], e.get('l')))
    r = m(ex, st, e, f, obj, vs)
    return r


DISPATCH = {}


def reg(*keys):
    def d(fn):
        for k in keys:
            DISPATCH[k] = fn
        return fn
    return d


VEC = 'std::vector'


def vec(ex, st, obj):
    v = ex.rval(st, obj)
    if isinstance(v, ILV):
        v = il_vec(ex, st, v)
    if not isinstance(v, VecV):
        raise Refuse('vector expected')
    return v


def aslv(ex, st, e, obj):
    if not isinstance(obj, Loc):
        obj = Loc(ex.cell(st, ('tmp', e['_n']), obj))
    return obj


@reg((VEC, 'size'), ('std::initializer_list', 'size'))
def v_size(ex, st, e, f, obj, vs):
    return [(st, vec(ex, st, obj).size)]


@reg((VEC, 'empty'))
def v_empty(ex, st, e, f, obj, vs):
    return [(st, t.eq(vec(ex, st, obj).size, t.ZERO))]


@reg((VEC, 'capacity'))
def v_cap(ex, st, e, f, obj, vs):
    n = vec(ex, st, obj).size
    if not ex.sym:
        return [(st, n)]
    c = ex.fresh('cap', 0, MAXSZ)
    st.assume(t.le(n, c))
    return [(st, c)]


@reg((VEC, 'max_size'))
def v_max(ex, st, e, f, obj, vs):
    et = f['cls']['a'][0]
    raise Refuse('max_size')


@reg((VEC, 'operator[]'))
def v_idx(ex, st, e, f, obj, vs):
    obj = aslv(ex, st, e, obj)
    i = ex.rval(st, vs[0])
    v = vec(ex, st, obj)
    ex.oblige(st, 'bounds', t.and_(t.ge(i, t.ZERO), t.lt(i, v.size)), e.get('l'), 'index below size()')
    return [(st, obj.i(i))]


@reg((VEC, 'at'))
def v_at(ex, st, e, f, obj, vs):
    obj = aslv(ex, st, e, obj)
    i = ex.rval(st, vs[0])
    v = vec(ex, st, obj)
    out = []
    for s, b in ex.branch(st, t.lt(i, v.size), e.get('l'), e['_n']):
        if b:
            out.append((s, obj.i(i)))
        else:
            ex.excn += 1
            out.append((s, Thrown('std::out_of_range', 'x%d' % ex.excn)))
    return out


@reg((VEC, 'front'))
def v_front(ex, st, e, f, obj, vs):
    obj = aslv(ex, st, e, obj)
    v = vec(ex, st, obj)
    ex.oblige(st, 'bounds', t.gt(v.size, t.ZERO), e.get('l'), 'front() of a non-empty vector')
    return [(st, obj.i(t.ZERO))]


@reg((VEC, 'back'))
def v_back(ex, st, e, f, obj, vs):
    obj = aslv(ex, st, e, obj)
    v = vec(ex, st, obj)
    ex.oblige(st, 'bounds', t.gt(v.size, t.ZERO), e.get('l'), 'back() of a non-empty vector')
    return [(st, obj.i(t.addn(v.size, -1)))]


@reg((VEC, 'data'))
def v_data(ex, st, e, f, obj, vs):
    return [(st, IterV(aslv(ex, st, e, obj), t.ZERO))]


@reg((VEC, 'push_back'), (VEC, 'emplace_back'))
def v_push(ex, st, e, f, obj, vs):
    v = vec(ex, st, obj)
    x = elem_conv(ex, st, v.et, vs[0]) if vs else ex.zero_elem(v.et)
    out = ex.alloc(st, 'push_back')
    if not ex.sym:
        v = cut(ex, v)
    n = v.size
    nv = ex.elem_set(v, n, x).upd(size=t.addn(n, 1))
    vec_grow(ex, st, obj, v, nv.size)
    ex.save(st, obj, nv)
    return out + [(st, None)]


@reg((VEC, 'pop_back'))
def v_pop(ex, st, e, f, obj, vs):
    v = vec(ex, st, obj)
    ex.oblige(st, 'bounds', t.gt(v.size, t.ZERO), e.get('l'), 'pop_back() of a non-empty vector')
    ex.save(st, obj, cut(ex, v.upd(size=t.addn(v.size, -1))))
    return [(st, None)]


@reg((VEC, 'clear'))
def v_clear(ex, st, e, f, obj, vs):
    v = vec(ex, st, obj)
    ex.save(st, obj, ex.empty_vec(v.et))
    return [(st, None)]


@reg((VEC, 'reserve'), (VEC, 'shrink_to_fit'))
def v_reserve(ex, st, e, f, obj, vs):
    return ex.alloc(st, 'reserve') + [(st, None)]


@reg((VEC, 'resize'))
def v_resize(ex, st, e, f, obj, vs):
    v = vec(ex, st, obj)
    n = ex.rval(st, vs[0])
    x = elem_conv(ex, st, v.et, vs[1]) if len(vs) > 1 else ex.zero_elem(v.et)
    out = []
    if ex.fault and not ex.entailed(st, t.le(n, v.size)):
        out = ex.alloc(st, 'resize')
    nv = resized(ex, st, v, n, x)
    vec_grow(ex, st, obj, v, n)
    ex.save(st, obj, nv)
    return out + [(st, None)]


@reg((VEC, 'assign'))
def v_assign(ex, st, e, f, obj, vs):
    v = vec(ex, st, obj)
    a = _vals(ex, st, vs)
    out = alloc_havoc(ex, st, obj, 'assign')
    if len(a) == 2 and isinstance(a[0], t.T):
        vec_grow(ex, st, obj, v, a[0])
        ex.save(st, obj, fill_vec(ex, st, v.et, a[0], a[1]))
    elif len(a) == 1 and isinstance(a[0], ILV):
        src = il_vec(ex, st, a[0])
        ex.save(st, obj, VecV(src.size, src.arrs, v.et))
    elif len(a) == 2 and isinstance(a[0], IterV):
        if a[0].base == obj:
            raise Refuse('assign from itself')
        r = ctor(ex, st, e, {'ctor': 'other', 'qn': 'assign', 'ps': []}, {'b': VEC, 'a': [v.et], 'n': ''}, a)
        s, nv = r[-1]
        ex.save(st, obj, nv)
    else:
        raise Refuse('vector::assign')
    return out + [(st, None)]


def alloc_havoc(ex, st, obj, why):
    """basic guarantee: on failure the container holds anything"""
    out = ex.alloc(st, why)
    for s, v in out:
        ex.havoc(s, obj)
    return out


@reg((VEC, 'operator='))
def v_assignop(ex, st, e, f, obj, vs):
    src = vs[0]
    v = ex.rval(st, src)
    if isinstance(v, ILV):
        out = alloc_havoc(ex, st, obj, 'assignment from list')
        w = il_vec(ex, st, v)
        cur = vec(ex, st, obj)
        ex.save(st, obj, VecV(w.size, w.arrs, cur.et))
        return out + [(st, obj)]
    if isinstance(src, Loc) and src == obj:
        if f.get('asgn') == 'move':
            # self-move leaves an unspecified value (libstdc++: empty)
            if ex.sym:
                ex.havoc(st, obj)
            else:
                ex.save(st, obj, ex.empty_vec(v.et))
        return [(st, obj)]
    if f.get('asgn') == 'move':
        ex.save(st, obj, v)
        if isinstance(src, Loc):
            if ex.sym:
                ex.havoc(st, src)      # valid but unspecified
            else:
                ex.save(st, src, ex.empty_vec(v.et))
        return [(st, obj)]
    out = alloc_havoc(ex, st, obj, 'copy assignment')
    ex.save(st, obj, v)
    return out + [(st, obj)]


@reg((VEC, 'swap'))
def v_swap(ex, st, e, f, obj, vs):
    a, b = ex.load(st, obj), ex.load(st, vs[0])
    ex.save(st, obj, b)
    ex.save(st, vs[0], a)
    return [(st, None)]


@reg((None, 'std::swap'))
def s_swap(ex, st, e, f, obj, vs):
    if not (isinstance(vs[0], Loc) and isinstance(vs[1], Loc)):
        raise Refuse('swap')
    a, b = ex.load(st, vs[0]), ex.load(st, vs[1])
    ex.save(st, vs[0], b)
    ex.save(st, vs[1], a)
    return [(st, None)]


@reg((VEC, 'insert'))
def v_insert(ex, st, e, f, obj, vs):
    v = vec(ex, st, obj)
    it = ex.rval(st, vs[0])
    if not isinstance(it, IterV) or it.base != obj or it.rev or len(vs) != 2:
        raise Refuse('vector::insert')
    x = ex.rval(st, vs[1])
    if isinstance(x, (ILV, IterV)):
        raise Refuse('vector::insert of a range')
    ex.oblige(st, 'bounds', t.and_(t.ge(it.idx, t.ZERO), t.le(it.idx, v.size)), e.get('l'), 'insert position within the vector')
    out = alloc_havoc(ex, st, obj, 'insert')
    v = cut(ex, v)
    lv = ex.elem_leafvals(v.et, x)
    nv = v.upd(size=t.addn(v.size, 1), arrs={p: t.ins(a, it.idx, lv[p]) for p, a in v.arrs.items()})
    vec_grow(ex, st, obj, v, nv.size)
    ex.save(st, obj, nv)
    return out + [(st, IterV(obj, it.idx))]


@reg((VEC, 'erase'))
def v_erase(ex, st, e, f, obj, vs):
    v = vec(ex, st, obj)
    it = ex.rval(st, vs[0])
    if not isinstance(it, IterV) or it.base != obj or it.rev:
        raise Refuse('vector::erase')
    if len(vs) == 2:
        it2 = ex.rval(st, vs[1])
        # erase to the end is a truncation
        if isinstance(it2, IterV) and it2.base == obj and (it2.idx is v.size or ex.entailed(st, t.eq(it2.idx, v.size))):
            ex.oblige(st, 'bounds', t.and_(t.ge(it.idx, t.ZERO), t.le(it.idx, v.size)), e.get('l'), 'erase range within the vector')
            ex.save(st, obj, cut(ex, v.upd(size=it.idx)))
            return [(st, it)]
        raise Refuse('vector::erase of a range')
    ex.oblige(st, 'bounds', t.and_(t.ge(it.idx, t.ZERO), t.lt(it.idx, v.size)), e.get('l'), 'erase position within the vector')
    v = cut(ex, v)
    ex.save(st, obj, v.upd(size=t.addn(v.size, -1), arrs={p: t.dele(a, it.idx) for p, a in v.arrs.items()}))
    return [(st, IterV(obj, it.idx))]


def _begin(rev, end):
    def g(ex, st, e, f, obj, vs):
        v = ex.rval(st, obj)
        if isinstance(v, ILV):
            obj, v = v.loc, ex.load(st, v.loc)
        else:
            obj = aslv(ex, st, e, obj)
        # a reverse iterator with position p refers to element p-1
        idx = v.size if end != rev else t.ZERO
        return [(st, IterV(obj, idx, rev))]
    return g


for _c in (VEC, 'std::initializer_list'):
    for _n in ('begin', 'cbegin'):
        DISPATCH[(_c, _n)] = _begin(False, False)
    for _n in ('end', 'cend'):
        DISPATCH[(_c, _n)] = _begin(False, True)
    for _n in ('rbegin', 'crbegin'):
        DISPATCH[(_c, _n)] = _begin(True, False)
    for _n in ('rend', 'crend'):
        DISPATCH[(_c, _n)] = _begin(True, True)


def _free_begin(m):
    def g(ex, st, e, f, obj, vs):
        return m(ex, st, e, f, vs[0], [])
    return g


for _n in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend'):
    DISPATCH[(None, 'std::' + _n)] = _free_begin(DISPATCH[(VEC, _n)])

NI = '__gnu_cxx::__normal_iterator'
RI = 'std::reverse_iterator'


def it_args(ex, st, obj, vs):
    a = ([obj] if obj is not None else []) + list(vs)
    return a, [ex.rval(st, x) for x in a]


def _itbin(op):
    def g(ex, st, e, f, obj, vs):
        a, v = it_args(ex, st, obj, vs)
        if len(v) == 1:
            raise Refuse('iterator operator')
        if isinstance(v[0], t.T):
            v = [v[1], v[0]]
        r = ex.binop(st, op, v[0], v[1], e['t'], e.get('l'))
        return [(st, r)]
    return g


def _itinc(d):
    def g(ex, st, e, f, obj, vs):
        old = ex.load(st, obj)
        new = IterV(old.base, t.addn(old.idx, -d if old.rev else d), old.rev)
        ex.save(st, obj, new)
        return [(st, old if vs else obj)]
    return g


def _itcasg(op):
    def g(ex, st, e, f, obj, vs):
        old = ex.load(st, obj)
        ex.save(st, obj, ex.binop(st, op, old, ex.rval(st, vs[0]), None, e.get('l')))
        return [(st, obj)]
    return g


def _itderef(ex, st, e, f, obj, vs):
    v = ex.rval(st, obj)
    if vs:
        v = ex.binop(st, '+', v, ex.rval(st, vs[0]), None, e.get('l'))
    return [(st, ex.deref(st, v, e.get('l')))]


def _itasg(ex, st, e, f, obj, vs):
    ex.save(st, obj, ex.rval(st, vs[0]))
    return [(st, obj)]


for _c in (NI, RI):
    DISPATCH[(_c, 'operator*')] = _itderef
    DISPATCH[(_c, 'operator[]')] = _itderef
    DISPATCH[(_c, 'operator->')] = lambda ex, st, e, f, obj, vs: [(st, PtrV(_itderef(ex, st, e, f, obj, vs)[0][1]))]
    DISPATCH[(_c, 'operator++')] = _itinc(1)
    DISPATCH[(_c, 'operator--')] = _itinc(-1)
    DISPATCH[(_c, 'operator+')] = _itbin('+')
    DISPATCH[(_c, 'operator-')] = _itbin('-')
    DISPATCH[(_c, 'operator+=')] = _itcasg('+')
    DISPATCH[(_c, 'operator-=')] = _itcasg('-')
    DISPATCH[(_c, 'operator=')] = _itasg
    for _op in ('==', '!=', '<', '<=', '>', '>='):
        DISPATCH[(_c, 'operator' + _op)] = _itbin(_op)
for _op in ('==', '!=', '<', '<=', '>', '>=', '-', '+'):
    DISPATCH[(None, '__gnu_cxx::operator' + _op)] = _itbin(_op)


def _base(ex, st, e, f, obj, vs):
    v = ex.rval(st, obj)
    return [(st, IterV(v.base, v.idx, False))]


DISPATCH[(RI, 'base')] = _base


@reg((None, 'std::distance'))
def s_distance(ex, st, e, f, obj, vs):
    a, b = _vals(ex, st, vs)
    return [(st, ex.binop(st, '-', b, a, None, e.get('l')))]


@reg((None, 'std::next'), (None, 'std::prev'))
def s_next(ex, st, e, f, obj, vs):
    a = _vals(ex, st, vs)
    n = a[1] if len(a) > 1 else t.ONE
    return [(st, ex.binop(st, '+' if base_name(f) == 'next' else '-', a[0], n, None, e.get('l')))]


@reg((None, 'std::move'), (None, 'std::forward'), (None, 'std::addressof'), (None, 'std::as_const'))
def s_move(ex, st, e, f, obj, vs):
    if len(vs) != 1:
        raise Refuse('std::move algorithm')
    if base_name(f) == 'addressof':
        return [(st, PtrV(vs[0]))]
    return [(st, vs[0])]


@reg((None, 'std::min'), (None, 'std::max'))
def s_minmax(ex, st, e, f, obj, vs):
    if len(vs) != 2:
        raise Refuse('std::min/max with a comparator or list')
    a, b = _vals(ex, st, vs)
    if not (isinstance(a, t.T) and isinstance(b, t.T)) or a.s == 'B':
        if isinstance(a, RecV):
            raise Refuse('std::min/max of objects')
    c = t.lt(a, b)
    ex.fresh_n += 1
    if base_name(f) == 'max':
        v = t.max2(a, b) if a.s == 'I' and b.s == 'I' else t.ite(c, b, a)
    else:
        v = t.min2(a, b) if a.s == 'I' and b.s == 'I' else t.ite(c, a, b)
    return [(st, Loc(ex.cell(st, ('tmp', e['_n']), v)))]


@reg(('std::numeric_limits', 'max'), ('std::numeric_limits', 'min'), ('std::numeric_limits', 'lowest'))
def s_limits(ex, st, e, f, obj, vs):
    ty = f['cls']['a'][0]
    n = base_name(f)
    if ty['k'] == 'int':
        w, s = ty['w'], ty['s']
        if n == 'max':
            return [(st, t.num((1 << (w - 1)) - 1 if s else (1 << w) - 1))]
        return [(st, t.num(-(1 << (w - 1)) if s else 0))]
    if ty['k'] == 'bool':
        return [(st, t.boolt(n == 'max'))]
    raise Refuse('numeric_limits of %s' % ty['k'])


def _noisy(ex, name):
    ex.assumed.add('%s yields some double' % name)
    return ex.fresh('fl', sort='R')


@reg((None, 'floor'), (None, 'std::floor'))
def s_floor(ex, st, e, f, obj, vs):
    v = ex.rval(st, vs[0])
    if v.op == 'num':
        return [(st, t.num(int(v.v // 1)))]
    if v.s == 'I':
        return [(st, v)]
    c = nearest(ex, st, v)
    if c is not None:
        return [(st, c)]
    return [(st, t.mk('floor', (v,), None, 'I'))]


def nearest(ex, st, v):
    """the integer a rounded convolution sum stands for, where the hypotheses entail floor(v) == that integer"""
    if not ex.sym:
        return None
    nears = [x for x in t.subterms(st.pc).values() if x.op == 'near']
    if not nears:
        return None
    sels = [x for x in t.subterms(list(st.pc)[-8:] + [v]).values() if x.op == 'sel' and x.s == 'R']
    q = t.num(t.Fraction(1, 4))
    for y in sels:
        for x in nears:
            re, carr, n = x.a
            if re is y.a[0]:
                c, i = t.sel(carr, y.a[1]), y.a[1]
                # what near() means at i
                inst = t.imp(t.and_(x, t.ge(i, t.ZERO), t.lt(i, n)), t.and_(t.le(t.sub(c, q), y), t.le(y, t.add(c, q)), t.le(c, t.num(1 << 31))))
                goal = t.and_(t.le(c, v), t.lt(v, t.addn(c, 1)), t.le(c, t.num(1 << 31)))
                if ex.quick.unsat(tuple(st.pc) + (inst, t.not_(goal))):
                    st.assume(t.le(c, t.num(1 << 31)))
                    return c
    return None


def _fn(name):
    import math
    g = getattr(math, name)

    def h(ex, st, e, f, obj, vs):
        v = ex.rval(st, vs[0])
        if ex.real and name in ('cos', 'sin'):
            ex.assumed.add(REAL)
            return [(st, t.trig(name + 'r', v))]
        if v.op == 'num':
            return [(st, t.num(Fraction(g(float(v.v)))))]
        return [(st, _noisy(ex, name))]
    return h


for _n in ('cos', 'sin', 'sqrt', 'log', 'log2', 'exp'):
    DISPATCH[(None, _n)] = DISPATCH[(None, 'std::' + _n)] = _fn(_n)

CX = 'std::complex'


@reg((CX, 'real'))
def c_real(ex, st, e, f, obj, vs):
    if vs:
        raise Refuse('complex::real setter')
    return [(st, ex.rval(st, obj).f['re'])]


@reg((CX, 'imag'))
def c_imag(ex, st, e, f, obj, vs):
    if vs:
        raise Refuse('complex::imag setter')
    return [(st, ex.rval(st, obj).f['im'])]


def _cx(v):
    if isinstance(v, RecV):
        return v.f['re'], v.f['im']
    return v, t.ZERO


@reg((None, 'std::conj'))
def c_conj(ex, st, e, f, obj, vs):
    v = ex.rval(st, vs[0])
    re, im = _cx(v)
    return [(st, RecV(v.n, {'re': re, 'im': t.neg(im)}))]


@reg((None, 'std::real'))
def c_fr(ex, st, e, f, obj, vs):
    return [(st, _cx(ex.rval(st, vs[0]))[0])]


@reg((None, 'std::imag'))
def c_fi(ex, st, e, f, obj, vs):
    return [(st, _cx(ex.rval(st, vs[0]))[1])]


def carith(ex, st, op, a, b, n):
    import math
    ar, ai = _cx(a)
    br, bi = _cx(b)
    if ex.real:
        r = ex.rarith
        if op in '+-':
            return RecV(n, {'re': r(op, ar, br), 'im': r(op, ai, bi)})
        if op == '/':
            if isinstance(b, RecV):
                m = t.recip(t.add(t.mul(br, br), t.mul(bi, bi)))
                br, bi = t.mul(br, m), t.neg(t.mul(bi, m))
            else:
                br = t.recip(br)
        return RecV(n, {'re': t.sub(t.mul(ar, br), t.mul(ai, bi)), 'im': t.add(t.mul(ar, bi), t.mul(ai, br))})
    if all(x.op == 'num' for x in (ar, ai, br, bi)):
        x = complex(float(ar.v), float(ai.v))
        y = complex(float(br.v), float(bi.v))
        try:
            if op == '/' and not isinstance(b, RecV):
                r = complex(x.real / y.real, x.imag / y.real)
            else:
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y}[op]()
        except ZeroDivisionError:
            return RecV(n, {'re': t.ZERO, 'im': t.ZERO})
        if not (math.isfinite(r.real) and math.isfinite(r.imag)):
            return RecV(n, {'re': t.ZERO, 'im': t.ZERO})
        return RecV(n, {'re': t.num(Fraction(r.real)), 'im': t.num(Fraction(r.imag))})
    ex.assumed.add('arithmetic on complex<double> yields some values')
    return RecV(n, {'re': ex.fresh('re', sort='R'), 'im': ex.fresh('im', sort='R')})


def _cop(op):
    def g(ex, st, e, f, obj, vs):
        a, b = _vals(ex, st, vs)
        n = (a if isinstance(a, RecV) else b)
        if isinstance(a, IterV) or isinstance(b, IterV):
            return _itbin(op)(ex, st, e, f, obj, vs)
        if not isinstance(n, RecV):
            raise Refuse('std::operator%s' % op)
        return [(st, carith(ex, st, op, a, b, n.n))]
    return g


for _op in '+-*/':
    DISPATCH[(None, 'std::operator' + _op)] = _cop(_op)


def _ccasg(op):
    def g(ex, st, e, f, obj, vs):
        a, b = ex.load(st, obj), ex.rval(st, vs[0])
        ex.save(st, obj, carith(ex, st, op, a, b, a.n))
        return [(st, obj)]
    return g


for _op in '+-*/':
    DISPATCH[(CX, 'operator%s=' % _op)] = _ccasg(_op)


@reg((CX, 'operator='))
def c_asg(ex, st, e, f, obj, vs):
    v = ex.rval(st, vs[0])
    if not isinstance(v, RecV):
        v = RecV(ex.load(st, obj).n, {'re': v, 'im': t.ZERO})
    ex.save(st, obj, v)
    return [(st, obj)]


def intelems(ex, a, b):
    """are the elements integers, compared by value? (the comparison of the library's wrapper is: it has a contract)"""
    la, lb = ex.elem_leaves(a.et), ex.elem_leaves(b.et)
    return la.keys() == lb.keys() and all(w > 0 for w in list(la.values()) + list(lb.values()))


def same_elems(ex, st, a, b, n, e):
    if not intelems(ex, a, b):
        raise Refuse('comparison of vectors at %s' % e.get('l'))
    return t.and_(*[t.aeqn(a.arrs[p], b.arrs[p], n) for p in a.arrs])


@reg((None, 'std::equal'))
def s_equal(ex, st, e, f, obj, vs):
    v = _vals(ex, st, vs)
    if len(v) not in (3, 4) or not all(isinstance(x, IterV) for x in v) or len({x.rev for x in v}) != 1 or v[0].base != v[1].base:
        raise Refuse('std::equal')
    a, b = ex.load(st, v[0].base), ex.load(st, v[2].base)
    rev = v[0].rev
    full = lambda x, w, at: (x.idx is (t.ZERO if at != rev else w.size)) or ex.entailed(st, t.eq(x.idx, t.ZERO if at != rev else w.size))
    # at: True for a first iterator, False for a last one
    if not (isinstance(a, VecV) and isinstance(b, VecV) and full(v[0], a, True) and full(v[1], a, False) and full(v[2], b, True)):
        raise Refuse('std::equal of parts')
    if len(v) == 4:
        if v[3].base != v[2].base or not full(v[3], b, False):
            raise Refuse('std::equal of parts')
        return [(st, t.and_(t.eq(a.size, b.size), same_elems(ex, st, a, b, a.size, e)))]
    ex.oblige(st, 'bounds', t.le(a.size, b.size), e.get('l'), 'std::equal: the second range is long enough')
    if rev and not ex.entailed(st, t.eq(a.size, b.size)):
        raise Refuse('std::equal backwards')
    return [(st, same_elems(ex, st, a, b, a.size, e))]


@reg((None, 'std::lexicographical_compare'))
def s_lexcmp(ex, st, e, f, obj, vs):
    v = _vals(ex, st, vs)
    if len(v) != 4 or not all(isinstance(x, IterV) and x.rev for x in v) or v[0].base != v[1].base or v[2].base != v[3].base:
        raise Refuse('std::lexicographical_compare')
    a, b = ex.load(st, v[0].base), ex.load(st, v[2].base)
    if not (isinstance(a, VecV) and isinstance(b, VecV) and intelems(ex, a, b) and len(a.arrs) == 1):
        raise Refuse('std::lexicographical_compare')
    for x, n in ((v[0], a.size), (v[1], t.ZERO), (v[2], b.size), (v[3], t.ZERO)):
        if x.idx is not n and not ex.entailed(st, t.eq(x.idx, n)):
            raise Refuse('std::lexicographical_compare of parts')
    if not (a.size is b.size or ex.entailed(st, t.eq(a.size, b.size))):
        raise Refuse('std::lexicographical_compare of different lengths')
    (x,), (y,) = a.arrs.values(), b.arrs.values()
    n = a.size
    if not ex.entailed(st, t.and_(t.valid(x, n), t.valid(y, n))):
        raise Refuse('std::lexicographical_compare of unknown digits')
    # most significant first, equally long, digits below the base: the order of the values
    return [(st, t.lt(t.V(x, n), t.V(y, n)))]


for _op in ('==', '!=', '<', '<=', '>', '>='):
    def _seq(ex, st, e, f, obj, vs, _op=_op):
        a, b = _vals(ex, st, vs)
        if isinstance(a, IterV):
            return [(st, ex.binop(st, _op, a, b, None, e.get('l')))]
        if isinstance(a, VecV) and isinstance(b, VecV) and _op in ('==', '!='):
            p = t.and_(t.eq(a.size, b.size), same_elems(ex, st, a, b, a.size, e))
            return [(st, p if _op == '==' else t.not_(p))]
        raise Refuse('std::operator%s at %s' % (_op, e.get('l')))
    DISPATCH[(None, 'std::operator' + _op)] = _seq


# ------------------------------------------------------------------ streams

def emit_str(o, s):
    for c in s:
        o = t.emitC(o, t.num(ord(c)))
    return o


def stream_put(ex, st, e, o, v, ty):
    cur = ex.load(st, o)
    if isinstance(v, StrV):
        ex.save(st, o, emit_str(cur, v.s))
    elif isinstance(v, t.T) and ty['k'] == 'int' and ty.get('ch'):
        ex.save(st, o, t.emitC(cur, v))
    elif isinstance(v, t.T) and ty['k'] in ('int', 'enum'):
        ex.save(st, o, t.emitN(cur, v))
    elif isinstance(v, t.T) and ty['k'] == 'bool':
        ex.save(st, o, t.emitN(cur, t.b2i(v)))
    elif isinstance(v, FnV):
        ex.save(st, o, t.emitC(cur, t.num(10)))
    elif isinstance(v, OpaqueV):
        cp = ex.fresh_like(cur) if ex.sym else t.emitC(cur, t.num(63))
        ex.save(st, o, cp)
    else:
        raise Refuse('output of %s' % ty.get('n', ty['k']))
    return [(st, o)]


@reg(('std::basic_ostream', 'operator<<'))
def o_put(ex, st, e, f, obj, vs):
    return stream_put(ex, st, e, obj, ex.rval(st, vs[0]), f['ps'][0])


@reg((None, 'std::operator<<'))
def o_fput(ex, st, e, f, obj, vs):
    v = ex.rval(st, vs[1])
    return stream_put(ex, st, e, vs[0], v, f['ps'][1])


@reg(('std::basic_ostream', 'put'))
def o_putc(ex, st, e, f, obj, vs):
    return stream_put(ex, st, e, obj, ex.rval(st, vs[0]), {'k': 'int', 'ch': True})


@reg((None, 'std::endl'), (None, 'std::flush'))
def o_endl(ex, st, e, f, obj, vs):
    if base_name(f) == 'flush':
        return [(st, vs[0])]
    return stream_put(ex, st, e, vs[0], FnV(f), {'k': 'fn'})


@reg(('std::basic_istream', 'operator>>'), (None, 'std::operator>>'))
def i_get(ex, st, e, f, obj, vs):
    raise Refuse('stream input')


# --------------------------------------------------------------- algorithms

@reg((None, 'std::fill'))
def a_fill(ex, st, e, f, obj, vs):
    a, z, x = _vals(ex, st, vs)
    if a.base != z.base or a.rev:
        raise Refuse('std::fill')
    v = ex.load(st, a.base)
    if not ex.sym:
        for i in range(a.idx.v, z.idx.v):
            v = ex.elem_set(v, t.num(i), x)
        ex.save(st, a.base, v)
        return [(st, None)]
    if z.idx is v.size:
        ex.oblige(st, 'bounds', t.and_(t.ge(a.idx, t.ZERO), t.le(a.idx, v.size)), e.get('l'), 'fill range')
        lv = ex.elem_leafvals(v.et, x)
        arrs = {p: (t.fill(lv[p], t.aw(q)) if a.idx is t.ZERO else t.rfill(q, a.idx, lv[p])) for p, q in v.arrs.items()}
        ex.save(st, a.base, v.upd(arrs=arrs))
        return [(st, None)]
    raise Refuse('std::fill of a partial range')


@reg((None, 'std::abort'), (None, 'abort'), (None, 'std::terminate'), (None, 'exit'), (None, 'std::exit'), (None, '__assert_fail'))
def a_abort(ex, st, e, f, obj, vs):
    ex.oblige(st, 'abort', t.FALSE, e.get('l'), 'the program does not abort')
    return []
