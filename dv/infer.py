"""Loop invariants.

Candidates come from templates evaluated on concrete executions of the very
function (the executor in concrete mode); they are then reduced to a provable,
inductive subset by Houdini. Nothing found here is trusted: each surviving
candidate is an obligation at loop entry and after every iteration.
"""
import itertools
import random
import re
from fractions import Fraction
from . import terms as t
from .terms import Ctx
from .values import *
from . import annot

P = (1 << 89) - 1
MAXS = 500


class Env:
    """leaf values: cur (loop head), pre (when the loop was entered), fn (when the function was entered)"""
    __slots__ = ('cur', 'pre', 'fn')

    def __init__(self, cur, pre, fn):
        self.cur, self.pre, self.fn = cur, pre, fn


class Cand:
    __slots__ = ('name', 'f', 'kind', 'id')

    def __init__(self, name, f, kind):
        self.name, self.f, self.kind = name, f, kind


IDENT = re.compile(r'(?<![\w.$@])[A-Za-z_$][\w.$]*(?:@loop|@call)?')
POST = re.compile(r'^post\(([^,]+), .*\)$')
WORDS = {'V', 'R', 'B', 'min', 'max', 'size', 'valid', 'canon', 'tail', 'render', 'post',
         'eqn', 'eqr', 'ev', 'od', 'conj', 'dft', 'idft', 'cnv'}
KEYS = ('var', 'param', 'cap', 'il', 'parg', 'obj', 'stream')


def snapshot(ex, store):
    """leaf key -> (kind, T)"""
    out = {}
    for c, v in store.items():
        m = ex.meta.get(c)
        if m is None or m[1][0] not in KEYS or v is None:
            continue
        try:
            for p, k, x in leaves(v):
                if x is not None:
                    out[(m, p)] = (k, x)
                if k == 'arr' and p[-1] == ('arr', ('re',)):
                    g = rounded(get_leaf(v, p[:-1]) if p[:-1] else v, x)
                    if g is not None:
                        out[(m, p[:-1] + (('ghost',),))] = ('arr', g)
        except AttributeError:
            continue
    return out


def rounded(vec, re):
    """the integers nearest to the real parts (ghost: known from the contract of the transform)"""
    if vec.ghost is not None:
        return vec.ghost[1] if vec.ghost[0] == 'near' else None
    if re.op == 'carr':
        l = [int((x + Fraction(1, 2)) // 1) for x in re.v[0]]
        if all(x >= 0 for x in l):
            return t.carr(l, 32)
    return None


def vals(snap):
    return {k: v[1] for k, v in snap.items()}


class Infer:
    """the loops policy of one function"""

    def __init__(self, ctx_factory=None):
        self.samples = {}      # key -> list of (Env, instance, it)
        self.inst = 0
        self.fn0 = None
        self.cands = {}        # key -> list of Cand
        self.meas = {}         # key -> list of Cand
        self.mods = {}
        self.dead = set()      # candidate ids dropped
        self.info = {}
        self.rng = random.Random(7)
        self.horner = self.bilinear = True
        self.strength = 0
        self.transfer = None   # f(value) -> list of (label, term): the function's own postconditions about a value
        self.loops_seen = {}
        self.hints = None      # annotations of the function: [{'inv': [...], 'dec': measure}] per loop
        self.mode = 'infer'    # 'annot': the annotations only
        self.unparsed = []
        self.nloops = None
        self.heads = []       # the variables at each loop
        self.same = {}        # parameter -> the parameter it is the same object as

    # ------------------------------------------------------------ sampling
    def sample(self, ex, st, L, pre, it):
        key = L['key']
        if it == 0:
            L['inst'] = self.inst = self.inst + 1
            L['pre'] = L.get('pre')
            L['presnap'] = vals(snapshot(ex, pre))
        l = self.samples.setdefault(key, [])
        if len(l) >= 4 * MAXS:
            return
        l.append((Env(vals(snapshot(ex, st.store)), L['presnap'], self.fn0 or {}), L['inst'], it, self.run))

    # ---------------------------------------------------------------- cut
    def modified(self, ex, st, L):
        key = L['key']
        known = self.mods.get(key, ())
        mods = set()
        if known:
            for c in st.store:
                for m, p in known:
                    if ex.meta.get(c) == m:
                        mods.add((c, p))
        for _ in range(6):
            q = st.clone()
            self.havoc(ex, q, mods)
            head = dict(q.store)
            ex.quiet += 1
            try:
                again, leave = ex.one_iter(q, L)
            finally:
                ex.quiet -= 1
            new = set()
            for s in again:
                for c, v in head.items():
                    w = s.store.get(c)
                    if w is v:
                        continue
                    self.diff(ex, c, v, w, (), new)
            if new <= mods:
                break
            mods |= new
        self.mods[key] = set(known) | {(ex.meta[c], p) for c, p in mods}
        return mods

    def diff(self, ex, c, v, w, path, out):
        m = ex.meta.get(c)
        if same_value(v, w):
            return
        if isinstance(v, RecV) and isinstance(w, RecV) and v.f.keys() == w.f.keys():
            for k in v.f:
                self.diff(ex, c, v.f[k], w.f[k], path + (('f', k),), out)
            return
        if isinstance(v, VecV) and isinstance(w, VecV):
            if v.size is not w.size:
                out.add((c, path + (('size',),)))
            for k in v.arrs:
                if v.arrs[k] is not w.arrs[k]:
                    out.add((c, path + (('arr', k),)))
            return
        if isinstance(v, IterV) and isinstance(w, IterV) and v.base == w.base and v.rev == w.rev:
            out.add((c, path + (('idx',),)))
            return
        if v is None or (isinstance(v, t.T) and isinstance(w, t.T)):
            out.add((c, path))
            return
        raise Refuse('loop changes a value of an unsupported kind')

    def havoc(self, ex, st, mods):
        for c, p in sorted(mods, key=lambda x: (x[0], repr(x[1]))):
            v = st.store.get(c)
            if c not in st.store:
                continue
            st.store[c] = set_leaf(v, p, self.fresh_leaf(ex, c, v, p)) if v is not None or not p else v

    def fresh_leaf(self, ex, c, v, p):
        m = ex.meta[c]
        name = str(m[1][-1])
        cur = get_leaf(v, p) if v is not None else None
        if p and p[-1] == ('size',):
            return ex.fresh(name + '.size', 0, 1 << 56)
        if p and p[-1][0] == 'arr':
            ex.fresh_n += 1
            return t.asym('%s!%d' % (name, ex.fresh_n), t.aw(cur))
        if p and p[-1] == ('idx',):
            return ex.fresh(name + '.it', -(1 << 57), 1 << 57)
        if isinstance(cur, t.T) and cur.s == 'O':
            ex.fresh_n += 1
            return t.osym('%s!%d' % (name, ex.fresh_n))
        if isinstance(cur, t.T) and cur.s == 'B':
            return ex.fresh(name, sort='B')
        ty = ex.types.get(c)
        if ty is not None and ty['k'] == 'ref':
            ty = ty['t']
        for q in p:
            if ty is None or q[0] != 'f':
                break
            r = ex.db.records.get(ty.get('n'))
            ty = next((f['t'] for f in r['f'] if f['n'] == q[1]), None) if r and 'f' in r else None
        if ty is None:
            raise Refuse('type of %s' % (m,))
        if p and any(q[0] != 'f' for q in p):
            raise Refuse('leaf')
        return ex.fresh_val(ty, name)

    def cut(self, ex, st, L):
        key = L['key']
        mods = self.modified(ex, st, L)
        pre = vals(snapshot(ex, st.store))
        fn0 = self.fn0 or {}
        if key not in self.cands and not ex.quiet:
            mk = {(ex.meta[c], p) for c, p in mods}
            self.cands[key], self.meas[key] = self.build(ex, st, key, mk, pre)
            self.loops_seen[key] = L['node'].get('l')
        cands = [c for c in self.cands.get(key, ()) if c.id not in self.dead]
        loc = L['node'].get('l', '')
        if not ex.quiet:
            from .exec import Obl
            env = Env(pre, pre, fn0)
            for c in cands:
                g = self.term(c, env)
                if g is None:
                    self.dead.add(c.id)
                    continue
                ex.obls.append(Obl('invariant', 'at loop entry: ' + c.name, loc, st.pc, g, st.trail, (), ('inv', c.id)))
        q = st.clone()
        self.havoc(ex, q, mods)
        cur = vals(snapshot(ex, q.store))
        env = Env(cur, pre, fn0)
        for c in cands:
            g = self.term(c, env)
            if g is not None:
                q.assume(g)
        meas = [m for m in self.meas.get(key, ()) if m.id not in self.dead]
        m0 = meas[0].f(env) if meas else None
        again, leave = ex.one_iter(q, L)
        if not ex.quiet:
            from .exec import Obl
            for s in again:
                env = Env(vals(snapshot(ex, s.store)), pre, fn0)
                for c in cands:
                    g = self.term(c, env)
                    if g is None:
                        self.dead.add(c.id)
                        continue
                    ex.obls.append(Obl('invariant', 'kept by the loop: ' + c.name, loc, s.pc, g, s.trail, (), ('inv', c.id)))
                if m0 is not None:
                    m1 = meas[0].f(env)
                    ex.obls.append(Obl('termination', 'decreases: ' + meas[0].name, loc, s.pc, t.and_(t.lt(m1, m0), t.ge(m0, t.ZERO)), s.trail, (), ('meas', meas[0].id)))
                elif True:
                    ex.obls.append(Obl('termination', 'no decreasing measure found', loc, s.pc, t.FALSE, s.trail, (), None))
        return leave

    def term(self, c, env):
        try:
            return c.f(env)
        except KeyError:
            return None

    # --------------------------------------------------------- annotations
    def annotated(self, ex, st, key, mods):
        """candidates written down for this loop (by its ordinal), or for any loop of the function"""
        n = len(self.cands)
        groups = []
        hs = self.hints or []
        if self.mode == 'annot':
            groups = hs[n:n + 1]
        elif self.mode == 'adapt' and self.nloops == len(hs):
            groups = hs[n:n + 1]
        else:
            groups = hs[n:n + 1] + hs[:n] + hs[n + 1:]
        if not groups:
            return [], []
        snap = snapshot(ex, st.store)
        b = Builder(self, [], {k: v[0] for k, v in snap.items()}, mods, snap, key)
        names = {}
        for lk in list(snap) + [lk for lk in mods if lk in snap]:
            names[lname(lk)] = lk
            if snap[lk][0] == 'out':
                names['<out>'] = lk
        names['<same>'] = self.same
        self.heads.append(list(dict.fromkeys(n.split('.')[0] for n in names if n[0] != '<')))
        bools = {lk for lk in snap if snap[lk][0] == 'bool'}

        def mkpost(nm, label):
            tr = self.transfer
            if tr is None or label not in tr.labels:
                return None
            for mk, p, val in b.roots():
                if lname((mk, p)) == nm:
                    i = tr.labels.index(label)
                    return lambda e, val=val: tr(i, val(e))
            return None
        out, ms = [], []
        S = [x[0] for x in self.samples.get(key, ())] if self.mode != 'annot' else []
        if len(S) > 120:
            S = S[:40] + self.rng.sample(S[40:], 80)
        b.S4 = self.samples.get(key, [])
        have = set()
        for h in groups:
            texts = [('annot', x) for x in h['inv']] + ([('meas', h['dec'])] if h.get('dec') else [])
            best = [({}, [True] * len(texts))]
            parsed = {}

            def get(kind, x, sub):
                y = rename(x, sub)
                k = (kind, y)
                if k not in parsed:
                    c = None
                    try:
                        f = annot.parse(y, names, mkpost, bools) if kind == 'annot' else annot.parse_expr(y, names, bools)
                        if not S or kind == 'annot' and (x.startswith('post(') or holds(f, S)) or kind == 'meas' and b.decreasing(f, b.S4[:MAXS]):
                            c = Cand(y, f, kind)
                    except (KeyError, annot.Syntax) as err:
                        self.unparsed.append((y, repr(err)))
                    parsed[k] = c
                return parsed[k]
            if self.mode != 'annot':
                subs = list(self.renamings([x for _, x in texts], names, h.get('vars') or ()))
                score = [(sum(1 for k, x in texts if get(k, x, sub)), -i) for i, sub in enumerate(subs)]
                top = max(score)[0] if score else 0
                best = [subs[-i] for sc, i in sorted(score, reverse=True) if sc == top][:1 if self.mode == 'adapt' else 3]
            else:
                best = [{}]
            for sub in best:
                for kind, x in texts:
                    c = get(kind, x, sub)
                    if c is not None and (kind, c.name) not in have:
                        have.add((kind, c.name))
                        (out if kind == 'annot' else ms).append(c)
        for x in out + ms:
            x.id = (key, x.kind, x.name)
        return out, ms

    def renamings(self, texts, names, known):
        """ways to read the variables of an annotation that do not exist in this code as variables that do"""
        ids = sorted({m.group(0) for x in texts for m in IDENT.finditer(POST.sub(r'\1', x))} - WORDS)
        p = annot.Parser('0', names)
        missing, used = {}, set()
        for i in ids:
            n = base_ident(i)
            try:
                p.resolve(n)
                used.add(n.split('.')[0])
            except KeyError:
                missing.setdefault(n.split('.')[0], set()).add(n)
        yield {}
        if not missing or len(missing) > 5:
            return
        heads = [n for n in dict.fromkeys(n.split('.')[0] for n in names if n[0] != '<') if n not in used]
        new = [n for n in heads if n not in known]     # not in the annotated code
        choices = []
        for v, full in sorted(missing.items()):
            c = []
            for h in new or heads:
                for drop, tail in (('', ''), ('.it', ''), ('.num', ''), ('', '.it'), ('', '.num'), ('.numData', '')):
                    m = {}
                    for n in full:
                        rest = n[len(v):]
                        if drop and not rest.startswith(drop):
                            break
                        try:
                            m[n] = p.resolve(h + rest[len(drop):] + tail)
                        except KeyError:
                            break
                    if len(m) == len(full) and m not in c:
                        c.append(m)
            choices.append(c + [{}])
        n = 0
        for pick in itertools.product(*choices):
            sub = {}
            for m in pick:
                sub.update(m)
            at = [{q.split('.')[0] for q in m.values()} for m in pick if m]
            if not sub or len(set.union(*at)) < len(at):
                continue
            n += 1
            if n > 400:
                return
            yield sub

    # ----------------------------------------------------------- templates
    def build(self, ex, st, key, mods, pre):
        ac, am = self.annotated(ex, st, key, mods)
        if self.mode in ('annot', 'adapt'):
            return ac, am
        S = self.samples.get(key, [])
        snap = snapshot(ex, st.store)
        kinds = {k: v[0] for k, v in snap.items()}
        if len(S) > MAXS:
            head = S[:MAXS // 2]
            S = head + self.rng.sample(S[MAXS // 2:], MAXS - len(head))
        if not S:
            self.info[key] = 'no samples'
            S = []
        b = Builder(self, S, kinds, mods, snap, key)
        cands = b.run()
        meas = b.measures(self.samples.get(key, []))
        have = {c.name for c in cands}
        cands = [c for c in ac if c.name not in have] + cands
        meas = am + [m for m in meas if m.name not in {a.name for a in am}]
        for x in cands + meas:
            x.id = (key, x.kind, x.name)
        self.info[key] = {'samples': len(S), 'candidates': len(cands), 'measures': len(meas)}
        return cands, meas


def lname(lk, when='cur'):
    (cp, key), p = lk
    s = str(key[-1]) + ''.join('.' + (str(q[1]) if q[0] == 'f' else 'size' if q[0] == 'size' else 'it' if q[0] == 'idx' else 'rounded' if q[0] == 'ghost' else q[1][0] if q[1] in (('re',), ('im',)) else 'arr') for q in p)
    return s if when == 'cur' else s + {'pre': "@loop", 'fn': "@call"}[when]


class F:
    """a feature: a term over an Env"""
    __slots__ = ('name', 'f', 'mod', 'cx', 'v', 'ix', 'scal')

    def __init__(self, name, f, mod, cx, ix=False):
        self.name, self.f, self.mod, self.cx, self.ix = name, f, mod, cx, ix


def base_ident(w):
    return w[:-5] if w.endswith(('@loop', '@call')) else w


def rename(x, sub):
    if not sub:
        return x

    def f(m):
        w = m.group(0)
        n = base_ident(w)
        return sub.get(n, n) + w[len(n):]
    m = POST.match(x)
    if m:
        return 'post(%s%s' % (IDENT.sub(f, m.group(1)), x[m.end(1):])
    return IDENT.sub(f, x)


def holds(f, S):
    for e in S:
        try:
            x = f(e)
        except KeyError:
            return False
        if x.op == 'false':
            return False
    return True


def getter(when, lk):
    if when == 'cur':
        return lambda e: e.cur[lk]
    if when == 'pre':
        return lambda e: e.pre[lk]
    return lambda e: e.fn[lk]


class Builder:
    def __init__(self, inf, S, kinds, mods, snap, key):
        self.S4 = S
        self.inf, self.S, self.kinds, self.mods, self.snap, self.key = inf, [s[0] for s in S], kinds, mods, snap, key

    def ev(self, f):
        """values on all samples, or None"""
        out = []
        for e in self.S:
            try:
                x = f(e)
            except KeyError:
                return None
            if x.op == 'true':
                out.append(1)
            elif x.op == 'false':
                out.append(0)
            elif x.op == 'num':
                out.append(x.v)
            else:
                return None
        return out

    def run(self):
        S = self.S
        out = []
        ints = []    # integer features
        arrs = []    # (name, getter array, getter size or None, modified)
        seen = {}

        def addint(name, f, mod, cx, ix=False):
            v = self.ev(f)
            if v is None or any(type(x) is not int for x in v):
                return None
            x = F(name, f, mod, cx, ix and len(v) > 0 and max(v) < 64)
            x.scal = not name.split('@')[0].endswith(('.size', '.it'))
            x.v = tuple(v)
            ints.append(x)
            return x
        # leaves in a stable order
        order = sorted(self.kinds, key=lambda lk: (lk in self.mods and 0 or 1, len(lk[0][0]), repr(lk)))
        for lk in order:
            k = self.kinds[lk]
            m = lk in self.mods
            if k in ('int', 'size', 'idx'):
                x = self.snap[lk][1]
                if x.s != 'I':
                    continue
                if not m and x.op == 'num':
                    continue
                ix = k != 'int' or self.indextype(lk)
                addint(lname(lk), getter('cur', lk), m, 0, ix)
                if m:
                    addint(lname(lk, 'pre'), getter('pre', lk), False, 1, ix)
            elif k == 'bool':
                g = getter('cur', lk)
                addint(lname(lk), lambda e, g=g: t.b2i(g(e)), m, 0)
            elif k == 'arr':
                a = self.snap[lk][1]
                if t.aw(a) == 0:
                    continue
                szk = (lk[0], lk[1][:-1] + (('size',),))
                arrs.append((lname(lk), getter('cur', lk), getter('cur', szk), m, szk in self.mods, lk, 'cur'))
                if m:
                    arrs.append((lname(lk, 'pre'), getter('pre', lk), getter('pre', szk), False, False, lk, 'pre'))
        # values at the call, if the loop does not start there
        for lk, v in (self.inf.fn0 or {}).items():
            if lk in self.snap and lk in pre_or(self.inf, lk) and self.snap[lk][0] == 'arr' and v is not self.snap[lk][1]:
                szk = (lk[0], lk[1][:-1] + (('size',),))
                arrs.append((lname(lk, 'fn'), getter('fn', lk), getter('fn', szk), False, False, lk, 'fn'))
        self.ints, self.arrs = ints, arrs
        if not S:
            return self.no_samples(order)
        # distinct integer quantities
        uniq = []
        byv = {}
        eqs = []
        for x in ints:
            if x.v in byv:
                y = byv[x.v]
                if x.mod or y.mod:
                    eqs.append(Cand('%s == %s' % (x.name, y.name), lambda e, x=x, y=y: t.eq(x.f(e), y.f(e)), 'eq'))
                continue
            if len(set(x.v)) == 1:
                if x.mod:
                    eqs.append(Cand('%s == %d' % (x.name, x.v[0]), lambda e, x=x: t.eq(x.f(e), t.num(x.v[0])), 'eq'))
                continue
            byv[x.v] = x
            uniq.append(x)
        out += eqs
        # linear equalities among the integers
        one = F('1', lambda e: t.ONE, False, 0)
        one.v = tuple([1] * len(S))
        small = [x for x in uniq if max(abs(y) for y in x.v) < (1 << 40)]
        out += self.linear([one] + small, 'int')
        out += self.ineqs(uniq)
        out += self.digits(uniq, arrs, one)
        out += self.preds(uniq, arrs)
        out += self.transfers()
        out += self.outputs(uniq)
        # unique names
        res, names = [], set()
        for c in out:
            k = (c.kind, c.name)
            if k not in names:
                names.add(k)
                res.append(c)
        return res

    def indextype(self, lk):
        if lk[1]:
            return False
        ex = self.inf.ex
        for c, m in ex.meta.items():
            if m == lk[0] and c in ex.types:
                ty = ex.types[c]
                if ty['k'] == 'ref':
                    ty = ty['t']
                return ty['k'] == 'int' and ty['w'] >= 32
        return True

    def no_samples(self, order):
        return []

    def linear(self, fs, fam, limit=40):
        """all linear equalities among the features (over the rationals)"""
        out = []
        fs = [f for f in fs if f is not None]
        n = len(fs)
        if n < 2:
            return out
        for vec in nullspace([f.v for f in fs]):
            nz = [i for i in range(n) if vec[i]]
            if not any(fs[i].mod for i in nz):
                continue
            if any(not nice(vec[i]) for i in nz):
                continue
            # exact check
            if any(sum(vec[i] * fs[i].v[s] for i in nz) for s in range(len(self.S))):
                continue
            name = ' + '.join('%s%s' % ('' if vec[i] == 1 else '%d*' % vec[i], fs[i].name) for i in nz) + ' == 0'

            def f(e, nz=nz, vec=vec):
                return t.eq(t.add(*[t.scale(fs[i].f(e), vec[i]) for i in nz], t.ZERO), t.ZERO)
            out.append(Cand(name, f, 'lin'))
            if len(out) >= limit:
                break
        return out

    def ineqs(self, xs):
        out = []
        B = Ctx.B
        xs = [x for x in xs]
        S = range(len(self.S))
        # constant bounds
        for x in xs:
            if not x.mod:
                continue
            hi, lo = max(x.v), min(x.v)
            for k in (1, 2, B - 1, B, 1 << 31):
                if hi <= k and (not x.ix or k == 1):
                    out.append(Cand('%s <= %d' % (x.name, k), lambda e, x=x, k=k: t.le(x.f(e), t.num(k)), 'le'))
                    break
            if lo >= 0:
                k = min(lo, 1)
                out.append(Cand('%s >= %d' % (x.name, k), lambda e, x=x, k=k: t.ge(x.f(e), t.num(k)), 'le'))
        big = [x for x in xs if x.ix and min(x.v) >= -1]
        rel = []
        for x in big:
            for y in big:
                if x is y or not (x.mod or y.mod):
                    continue
                d = min(b - a for a, b in zip(x.v, y.v))
                if d in (0, 1):
                    rel.append((x, y))
                    out.append(Cand('%s + %d <= %s' % (x.name, d, y.name), lambda e, x=x, y=y, d=d: t.le(t.addn(x.f(e), d), y.f(e)), 'le'))
        # with maxima and 0/1 quantities
        mx = []
        for i in range(len(big)):
            for j in range(i + 1, len(big)):
                y, z = big[i], big[j]
                if (y, z) in rel or (z, y) in rel or y.v == z.v:
                    continue
                m = F('max(%s,%s)' % (y.name, z.name), lambda e, y=y, z=z: t.max2(y.f(e), z.f(e)), y.mod or z.mod, 2)
                m.v = tuple(max(a, b) for a, b in zip(y.v, z.v))
                mx.append((m, y, z))
        mx = mx[:40]
        flags = [x for x in xs if x.mod and max(x.v) == 1 and min(x.v) == 0]
        for x in big:
            for m, y, z in mx:
                if x is y or x is z or not (x.mod or m.mod):
                    continue
                if (x, y) in rel or (x, z) in rel:
                    pass
                else:
                    d = min(b - a for a, b in zip(x.v, m.v))
                    if d in (0, 1):
                        out.append(Cand('%s + %d <= %s' % (x.name, d, m.name), lambda e, x=x, m=m, d=d: t.le(t.addn(x.f(e), d), m.f(e)), 'le'))
                if x.v == m.v:
                    out.append(Cand('%s == %s' % (x.name, m.name), lambda e, x=x, m=m: t.eq(x.f(e), m.f(e)), 'le'))
                for c in flags:
                    if c is x or c is y or c is z or x.cx:
                        continue
                    d = min(b + g - a for a, b, g in zip(x.v, m.v, c.v))
                    if d == 1:
                        out.append(Cand('%s + 1 <= %s + %s' % (x.name, m.name, c.name), lambda e, x=x, m=m, c=c: t.le(t.addn(x.f(e), 1), t.add(m.f(e), c.f(e))), 'le'))
        return out

    # -- value of digit strings
    def digits(self, ints, arrs, one):
        S = self.S
        out = []
        B = Ctx.B
        idx = [x for x in ints if x.ix and min(x.v) >= 0]
        fs = []
        Vs = []
        seen = set()
        self.Vfull = []

        def feat(name, f, mod, cx, force=False):
            v = self.ev(f)
            if v is None:
                return None
            v = tuple(v)
            x = F(name, f, mod, cx)
            x.v = v
            if len(set(v)) == 1 and not force:
                if mod:
                    out.append(Cand('%s == %d' % (name, v[0]), lambda e: t.eq(f(e), t.num(v[0])), 'dig'))
                return None
            for y in fs:
                if y.v == v:
                    if mod or y.mod:
                        out.append(Cand('%s == %s' % (name, y.name), lambda e: t.eq(f(e), y.f(e)), 'dig'))
                    return None
            fs.append(x)
            return x
        pows = []
        # which arrays take part: modified ones and digit inputs
        part = []
        for nm, ga, gs, m, ms, lk, when in arrs:
            sz = self.ev(gs)
            if sz is None:
                continue
            part.append((nm, ga, gs, m, ms, tuple(sz), lk))
        self.part = part
        for nm, ga, gs, m, ms, sz, lk in part:
            full = feat('V(%s)' % nm, lambda e, ga=ga, gs=gs: t.V(ga(e), gs(e)), m or ms, 3)
            if full is not None:
                self.Vfull.append((full, nm, ga, gs))
            done = {sz}
            cnt = 0
            for x in idx:
                if not (x.mod or m or ms):
                    continue
                if x.v in done:
                    continue
                if all(a <= b for a, b in zip(x.v, sz)):
                    done.add(x.v)
                    feat('V(%s,%s)' % (nm, x.name), lambda e, ga=ga, x=x: t.V(ga(e), x.f(e)), m or x.mod, 4)
                elif x.mod:
                    mv = tuple(min(a, b) for a, b in zip(x.v, sz))
                    if mv in done:
                        continue
                    done.add(mv)
                    feat('V(%s,min(%s,size))' % (nm, x.name), lambda e, ga=ga, gs=gs, x=x: t.V(ga(e), t.min2(x.f(e), gs(e))), True, 5)
            for i in range(len(idx)):
                for j in range(i + 1, len(idx)):
                    x, y = idx[i], idx[j]
                    if x.cx or y.cx or cnt > 6:
                        continue
                    sv = tuple(a + b for a, b in zip(x.v, y.v))
                    if sv in done or not all(a <= b for a, b in zip(sv, sz)) or not (x.mod or y.mod or m):
                        continue
                    done.add(sv)
                    cnt += 1
                    feat('V(%s,%s+%s)' % (nm, x.name, y.name), lambda e, ga=ga, x=x, y=y: t.V(ga(e), t.add(x.f(e), y.f(e))), m or x.mod or y.mod, 6)
        # small scalars times powers
        smalls = [x for x in ints if x.mod and min(x.v) >= 0 and not (x.ix and (not x.scal or self.counter(x)))]
        pidx = [x for x in idx if x.cx == 0]
        psum = []
        for i in range(len(pidx)):
            for j in range(i + 1, len(pidx)):
                x, y = pidx[i], pidx[j]
                if x.mod != y.mod:
                    s = F('%s+%s' % (x.name, y.name), lambda e, x=x, y=y: t.add(x.f(e), y.f(e)), True, 1)
                    s.v = tuple(a + b for a, b in zip(x.v, y.v))
                    if max(s.v) < 64:
                        psum.append(s)
        for c in smalls:
            feat(c.name, c.f, c.mod, 1)
            for x in [p for p in pidx if p.mod] + psum:
                if x is c or c.v == x.v:
                    continue
                if max(x.v) > 40:
                    continue
                feat('%s*B^(%s)' % (c.name, x.name), lambda e, c=c, x=x: t.mul(c.f(e), t.pow_(x.f(e))), True, 5)
        basic = list(fs)
        # Horner values of lists
        for nm, ga, gs, m, ms, sz, lk in part:
            if m or lk[0][1][0] not in ('il', 'obj', 'param', 'parg'):
                continue
            if not self.inf.horner:
                break
            for x in idx:
                if not x.mod or not all(a <= b for a, b in zip(x.v, sz)):
                    continue
                feat('R(%s,%s)' % (nm, x.name), lambda e, ga=ga, x=x: t.R(ga(e), x.f(e)), True, 5)
                for y in idx:
                    if y is x or not y.mod:
                        continue
                    feat('R(%s,%s)*B^%s' % (nm, x.name, y.name), lambda e, ga=ga, x=x, y=y: t.mul(t.R(ga(e), x.f(e)), t.pow_(y.f(e))), True, 6)
        # bilinear
        Vl = [f for f in fs if f.name.startswith('V(')]
        if self.inf.bilinear:
            prods = 0
            arrv = {}
            for f in Vl:
                arrv.setdefault(f.name, f)
            for i in range(len(Vl)):
                for j in range(i, len(Vl)):
                    x, y = Vl[i], Vl[j]
                    if x.cx > 4 or y.cx > 4:
                        continue
                    ax, ay = x.name[2:].split(',')[0].rstrip(')'), y.name[2:].split(',')[0].rstrip(')')
                    if ax.split('@')[0] == ay.split('@')[0] or not (x.mod or y.mod):
                        continue
                    if prods > 40:
                        break
                    prods += 1
                    feat('%s*%s' % (x.name, y.name), lambda e, x=x, y=y: t.mul(x.f(e), y.f(e)), True, 7)
            for nm, ga, gs, m, ms, sz, lk in part:
                if m:
                    continue
                for u in idx:
                    if u.mod or not all(a < b for a, b in zip(u.v, sz)):
                        continue
                    dg = lambda e, ga=ga, u=u: t.sel(ga(e), u.f(e))
                    for f in Vl:
                        if f.name.startswith('V(%s' % nm) or not f.mod or f.cx > 4 or '@' in f.name:
                            continue
                        feat('%s*%s[%s]*B^%s' % (f.name, nm, u.name, u.name), lambda e, f=f, dg=dg, u=u: t.mul(t.mul(f.f(e), dg(e)), t.pow_(u.f(e))), True, 8)
        fs.sort(key=lambda f: -f.cx)
        out += self.linear(fs + [one], 'dig')
        # inequalities between values
        for i in range(len(self.Vfull)):
            x, nm, ga, gs = self.Vfull[i]
            if x.mod and min(x.v) >= 1:
                out.append(Cand('%s >= 1' % x.name, lambda e, x=x: t.ge(x.f(e), t.ONE), 'val'))
            for j in range(len(self.Vfull)):
                y = self.Vfull[j][0]
                if i != j and (x.mod or y.mod) and all(a <= b for a, b in zip(x.v, y.v)):
                    out.append(Cand('%s <= %s' % (x.name, y.name), lambda e, x=x, y=y: t.le(x.f(e), y.f(e)), 'val'))
        return out

    def counter(self, x):
        """moves by exactly one, in one direction, in every iteration"""
        d = set()
        last = {}
        for k, (e, inst, it, run) in enumerate(self.S4):
            p = last.get((run, inst))
            if p is not None and p[0] + 1 == it:
                d.add(x.v[k] - p[1])
            last[(run, inst)] = (it, x.v[k])
        return len(d) <= 1 and all(abs(y) == 1 for y in d) if d else True

    def preds(self, ints, arrs):
        out = []
        for nm, ga, gs, m, ms, sz, lk in self.part:
            if not (m or ms):
                continue
            f = lambda e, ga=ga, gs=gs: t.valid(ga(e), gs(e))
            v = self.ev(f)
            if v is not None and all(v):
                out.append(Cand('valid(%s)' % nm, f, 'valid'))
            g = lambda e, ga=ga, gs=gs: t.or_(t.le(gs(e), t.ZERO), t.le(t.pow_(t.addn(gs(e), -1)), t.V(ga(e), gs(e))))
            v = self.ev(g)
            if v is not None and all(v):
                out.append(Cand('canon(%s)' % nm, g, 'canon'))
        return out

    def roots(self):
        """the vectors which the loop changes: name -> (key, value builder)"""
        roots = {}
        for lk in self.kinds:
            (mk, p) = lk
            if p and p[-1] == ('size',) and (lk in self.mods or any(q[0] == mk and q[1][:len(p) - 1] == p[:-1] for q in self.mods)):
                roots[(mk, p[:-1])] = 1
        for (mk, p) in sorted(roots, key=repr):
            arrk = [k for k in self.kinds if k[0] == mk and k[1][:-1] == p and k[1][-1][0] == 'arr']
            et = self.inf.vec_et.get((mk, p))
            if et is None:
                continue

            def val(e, mk=mk, p=p, arrk=arrk, et=et):
                return VecV(e.cur[(mk, p + (('size',),))], {k[1][-1][1]: e.cur[k] for k in arrk}, et)
            yield mk, p, val

    def transfers(self):
        """the postconditions of the function, said of local values"""
        out = []
        tr = self.inf.transfer
        if tr is None:
            return out
        for mk, p, val in self.roots():
            for i, label in enumerate(tr.labels):
                def f(e, i=i, val=val):
                    return tr(i, val(e))
                try:
                    v = []
                    ok = True
                    for k, e in enumerate(self.S):
                        x = tr.concrete(i, val(e), k)
                        if x is None:
                            ok = False
                            break
                except Exception:
                    ok = False
                out.append(Cand('post(%s, %s)' % (lname((mk, p)), label), f, 'post'))
        return out

    def outputs(self, ints):
        out = []
        for lk, k in self.kinds.items():
            if k != 'out' or lk not in self.mods:
                continue
            for nm, ga, gs, m, ms, sz, alk in self.part:
                if m or ms:
                    continue
                for x in ints:
                    if not x.mod:
                        continue

                    def f(e, ga=ga, gs=gs, x=x, lk=lk):
                        return t.eq(e.cur[lk], t.render(e.pre[lk], ga(e), gs(e), x.f(e)))
                    ok = True
                    for e in self.S:
                        try:
                            n = x.f(e)
                            if n.op != 'num' or n.v < 0 or n.v > gs(e).v or f(e) is not t.TRUE:
                                ok = False
                                break
                        except KeyError:
                            ok = False
                            break
                    if ok:
                        out.append(Cand('render(%s, %s)' % (nm, x.name), f, 'out'))
        return out

    # ---------------------------------------------------------- termination
    def decreasing(self, f, S):
        last = {}
        for e, inst, it, run in S:
            try:
                x = f(e)
            except KeyError:
                return False
            if x.op != 'num':
                return False
            p = last.get((run, inst))
            if p is not None and p[0] + 1 == it and not (x.v < p[1] and p[1] >= 0):
                return False
            last[(run, inst)] = (it, x.v)
        return True

    def measures(self, S):
        seqs = {}
        for e, inst, it, run in S:
            seqs.setdefault((run, inst), []).append((it, e))
        seqs = [sorted(v, key=lambda x: x[0]) for v in seqs.values()]

        def ok(f):
            prev = None
            for s in seqs:
                prev = None
                for it, e in s:
                    try:
                        x = f(e)
                    except KeyError:
                        return False
                    if x.op != 'num':
                        return False
                    if prev is not None and not (x.v < prev and prev >= 0):
                        return False
                    prev = x.v
            return True
        out = []
        ints = self.ints

        def add(name, f):
            if ok(f):
                out.append(Cand(name, f, 'meas'))
        for x in ints:
            if x.mod:
                add(x.name, x.f)
        for x in ints:
            if not x.mod:
                continue
            for y in ints:
                if y is not x:
                    add('%s - %s' % (y.name, x.name), lambda e, x=x, y=y: t.sub(y.f(e), x.f(e)))
        if len(out) < 3:
            for x in ints:
                if x.mod:
                    for i in range(len(ints)):
                        for j in range(i + 1, len(ints)):
                            y, z = ints[i], ints[j]
                            if x in (y, z) or y.v == z.v:
                                continue
                            for k in (0, 1):
                                add('max(%s,%s) + %d - %s' % (y.name, z.name, k, x.name), lambda e, x=x, y=y, z=z, k=k: t.addn(t.sub(t.max2(y.f(e), z.f(e)), x.f(e)), k))
                if len(out) > 6:
                    break
        for x in getattr(self, 'Vfull', []):
            if x[0].mod:
                add(x[0].name, x[0].f)
                for y in self.Vfull:
                    if y is not x:
                        add('%s - %s' % (y[0].name, x[0].name), lambda e, x=x, y=y: t.sub(y[0].f(e), x[0].f(e)))
        if not out and not S:
            return []
        return out[:8]


def pre_or(inf, lk):
    return {lk}


# ------------------------------------------------------------ linear algebra

def nullspace(cols):
    """integer vectors spanning the linear relations among the columns (exact up to the modulus, verified by the caller)"""
    n = len(cols)
    m = len(cols[0])
    rows = {}
    # distinct rows, most informative first
    seen = set()
    mat = []
    for s in range(m):
        r = tuple(c[s] for c in cols)
        if r not in seen:
            seen.add(r)
            mat.append([x % P for x in r])
    # RREF with pivots chosen from the left
    piv = []
    r = 0
    # put pivots as far right as possible: relations then express left (complex) columns by right (simple) ones
    order = list(range(n - 1, -1, -1))
    for c in order:
        p = next((i for i in range(r, len(mat)) if mat[i][c]), None)
        if p is None:
            continue
        mat[r], mat[p] = mat[p], mat[r]
        inv = pow(mat[r][c], P - 2, P)
        mat[r] = [x * inv % P for x in mat[r]]
        row = mat[r]
        for i in range(len(mat)):
            if i != r and mat[i][c]:
                k = mat[i][c]
                mi = mat[i]
                mat[i] = [(a - k * b) % P for a, b in zip(mi, row)]
        piv.append(c)
        r += 1
        if r == len(mat):
            break
    free = [c for c in range(n) if c not in piv]
    out = []
    for f in free:
        vec = [0] * n
        vec[f] = 1
        ok = True
        den = 1
        fr = {}
        for i, c in enumerate(piv):
            x = (-mat[i][f]) % P
            if x:
                q = ratrec(x)
                if q is None:
                    ok = False
                    break
                fr[c] = q
                den = den * q[1] // __import__('math').gcd(den, q[1])
        if not ok:
            continue
        vec[f] = den
        for c, (a, b) in fr.items():
            vec[c] = a * den // b
        out.append(vec)
    return out


def nice(c):
    c = abs(c)
    B = Ctx.B
    while B > 1 and c and c % B == 0:
        c //= B
    return c <= 4 or c == B - 1


def ratrec(x, bound=1 << 43):
    """rational reconstruction of x mod P"""
    a, b = P, x % P
    u, v = 0, 1
    while b > bound:
        q = a // b
        a, b = b, a - q * b
        u, v = v, u - q * v
    if v == 0 or abs(v) > bound:
        return None
    return (b, v) if v > 0 else (-b, -v)
