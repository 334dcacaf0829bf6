"""Verification of one function against its contract."""
import random
import time
import traceback
from . import terms as t, smt, bv, exec as X, specs as S, infer, samples
from .astdb import short
from .values import *


class Result:
    def __init__(self):
        self.obls = []        # (kind, label, loc, tags, ok, how, seconds)
        self.refused = None
        self.used = set()
        self.inlined = set()
        self.assumed = set()
        self.time = 0.0
        self.queries = 0
        self.solver_time = 0.0
        self.loops = {}
        self.rounds = 0
        self.mode = None
        self.exits = 0
        self.structure = None     # 'annotated', 'no loops', or why the annotations do not describe this code

    def failed(self):
        return [o for o in self.obls if not o['ok']]


class Transfer:
    """postconditions of the function as templates over a value"""

    def __init__(self):
        self.labels = []
        self.make = None

    def __call__(self, i, v):
        return self.make(v)[i]

    def concrete(self, i, v, k):
        # concrete filtering is done by Houdini itself
        return True


def setup(ex, st, fn, spec, alias):
    """fresh symbolic objects for the parameters: (this, args, objs)"""
    db = ex.db
    this = None
    objs = []
    isctor = 'inits' in fn or (fn.get('cls') and fn.get('ctor'))
    if 'cls' in fn and not fn.get('static') and fn['cls'].get('b') != 'lambda':
        if is_ctor(fn):
            this = Loc(ex.cell(st, ('obj', 'this'), RecV(fn['cls']['n'], {}), scope=False))
        else:
            ty = dict(fn['cls'])
            ty['k'] = 'rec'
            this = Loc(ex.cell(st, ('obj', 'this'), ex.fresh_val(ty, 'this'), scope=False, ty=ty))
        objs.append(this)
    args = []
    for i, p in enumerate(fn['params']):
        ty = p['t']
        name = p.get('n') or 'arg%d' % i
        if alias == '01' and len(objs) == 1:
            a = objs[0]
        elif ty['k'] == 'ref':
            a = Loc(ex.cell(st, ('obj', name), ex.fresh_val(ty['t'], name), scope=False, ty=ty['t']))
        elif ty['k'] == 'rec' and ty['b'] == 'std::initializer_list':
            et = ty['a'][0]
            v = ex.fresh_val({'k': 'rec', 'b': 'std::vector', 'a': [et], 'n': 'il'}, name)
            a = ILV(Loc(ex.cell(st, ('il', name), v, scope=False)))
        else:
            a = ex.fresh_val(ty, name)
        args.append(a)
        objs.append(a)
    return this, args, objs


def is_ctor(fn):
    return fn.get('cls') is not None and (fn.get('ctor') or 'inits' in fn)


class FnVerifier:
    def __init__(self, db, fn, alias='', fault=False, base=None, specs=None, budget=240, want=None, hints=None, modes=('annot', 'adapt', 'infer', 'strong')):
        # want: see owned()
        self.db, self.fn, self.alias, self.fault = db, fn, alias, fault
        self.spec = S.find_spec(db, fn)
        self.base = base or S.fn_base(db, fn)
        self.specs = specs or S.Specs(db)
        self.budget = budget
        self.want = want      # restrict to these tags (None: all)
        self.skip = set()     # ... except for obligations of these properties only
        self.real = want == {'C19'}
        self.hints = hints
        self.modes = modes
        self.cache = {}
        self.paths = {}
        self.samples = None

    # ---------------------------------------------------------- concrete runs
    def sample(self, inf, n=70, limit=25.0):
        fn, spec = self.fn, self.spec
        rng = random.Random(11)
        t0 = time.time()
        done = 0
        self.sample_faults = []
        for k in range(n * 6):
            if done >= n or time.time() - t0 > limit:
                break
            ex = X.Exec(self.db, 'conc', specs=self.specs, loops=inf, fuel=60000)
            st = X.State()
            r = samples.concrete_setup(ex, st, fn, spec, self.alias, rng, k)
            if r is None:
                break
            this, args, objs = r
            ctx = S.CallCtx(ex, spec, fn, objs, self.alias)
            ctx.enter(st)
            try:
                if not all(p is t.TRUE for _, p in spec.pre(ctx)):
                    continue
            except Refuse:
                return done
            inf.fn0 = infer.vals(infer.snapshot(ex, st.store))
            inf.run = k
            try:
                ex.call_body(st, fn, this, args, {'_n': 'top'})
            except (X.ConcreteFault, X.Fuel) as e:
                self.sample_faults.append(str(e))
            except Refuse as e:
                self.sample_faults.append('refused: ' + str(e))
                if len(self.sample_faults) > 5:
                    break
            done += 1
        return done

    # --------------------------------------------------------------- one run
    def execute(self, inf):
        ex = X.Exec(self.db, 'sym', fault=self.fault, specs=self.specs, loops=inf, fuel=400000)
        ex.real = self.real
        fn, spec = self.fn, self.spec
        st = X.State()
        this, args, objs = setup(ex, st, fn, spec, self.alias)
        ctx = S.CallCtx(ex, spec, fn, objs, self.alias)
        ctx.enter(st)
        for label, p in spec.pre(ctx):
            st.assume(p)
        self.ctx0 = ctx
        ex.top = (fn['_k'], ctx)
        inf.fn0 = infer.vals(infer.snapshot(ex, st.store))
        if inf.transfer is None:
            inf.transfer = self.transfer(ex, ctx, st)
            inf.vec_et = {}
        self.et_map(ex, inf)
        self.theory(ex, inf)
        rs = ex.call_body(st, fn, this, args, {'_n': 'top'})
        self.exits = len(rs)
        for s, v in rs:
            self.at_exit(ex, ctx, s, v, objs)
        return ex

    def et_map(self, ex, inf):
        class M(dict):
            pass
        inf.ex = ex

        class Lazy:
            def get(self, k):
                mk, p = k
                for c, m in ex.meta.items():
                    if m == mk and c in ex.types:
                        ty = ex.types[c]
                        if ty['k'] == 'ref':
                            ty = ty['t']
                        for q in p:
                            if q[0] != 'f':
                                return None
                            r = ex.db.records.get(ty.get('n'))
                            ty = next((f['t'] for f in r['f'] if f['n'] == q[1]), None) if r and 'f' in r else None
                            if ty is None:
                                return None
                        if ty['k'] == 'rec' and ty['b'] == 'std::vector':
                            return ty['a'][0]
                return None
        inf.vec_et = Lazy()

    def transfer(self, ex, ctx, st):
        """templates from the postconditions about the returned or modified vector"""
        spec, fn = self.spec, self.fn
        rt = fn.get('rt')
        ref = None
        if rt and rt['k'] == 'rec' and rt['b'] == 'std::vector':
            ref = 'ret'
        elif ctx.old and isinstance(ctx.old[0], VecV) and 0 in spec.mods:
            ref = 'new'
        if ref is None:
            return None
        tr = Transfer()

        def make(v):
            c = S.CallCtx(ex, spec, fn, ctx.objs, self.alias)
            c.old = self.ctx0.old
            c.st0 = self.ctx0.st0
            c.new = list(self.ctx0.old)
            c.ret = c.retv = None
            if ref == 'ret':
                c.ret = c.retv = v
            else:
                c.new[0] = v
            return [p[2] for p in spec.post(c)]
        tr.make = make
        et = rt['a'][0] if ref == 'ret' else ctx.old[0].et
        probe = ex.fresh_val({'k': 'rec', 'b': 'std::vector', 'a': [et], 'n': 'v'}, 'probe')
        tr.et = et
        c = S.CallCtx(ex, spec, fn, ctx.objs, self.alias)
        c.old, c.st0, c.new, c.ret, c.retv = ctx.old, ctx.st0, list(ctx.old), probe, probe
        if ref == 'new':
            c.new[0] = probe
        tr.labels = [p[1] for p in spec.post(c)]
        return tr

    def theory(self, ex, inf):
        """which kinds of features the contract talks about"""
        inf.bilinear = isinstance(self.spec, (S.AbsMul, S.AbsDiv))
        inf.horner = isinstance(self.spec, S.Ctor)

    def at_exit(self, ex, ctx, s, v, objs):
        spec, fn = self.spec, self.fn
        loc = fn.get('l', '')
        mods = spec.modifies(ctx)
        mods = {m.key() for m in mods}
        if isinstance(v, Thrown):
            if not self.fault:
                c = spec.throws(ctx) if spec.throws is not None else None
                ex.oblige(s, 'exception', c[0] if c is not None else t.FALSE, loc, 'no exception escapes (%s)' % v.ty, ('C10',))
                return
            if not v.uid.startswith('a'):
                ex.oblige(s, 'exception', t.FALSE, loc, 'the exception that escapes is the allocation failure (got %s)' % v.ty, ('C15',))
                return
            ex.oblige(s, 'exception', t.boolt(v.ty == 'std::bad_alloc'), loc, 'the exception that escapes is the original std::bad_alloc', ('C15',))
            ctx.leave(s, None)
            for tags, label, p in spec.post_exc(ctx):
                self.post(ex, s, tags, label, p, loc)
            self.frame(ex, ctx, s, objs, mods, ('C15',))
            return
        if self.fault:
            return
        ctx.leave(s, v)
        rt = fn.get('rt')
        if rt is not None and rt['k'] == 'ref':
            want = spec.ref_result(ctx)
            if isinstance(v, Loc) and isinstance(want, Loc):
                same = v.cell == want.cell and len(v.path) == len(want.path)
                cond = t.boolt(same)
                if same:
                    for (k1, p1), (k2, p2) in zip(v.path, want.path):
                        if k1 != k2:
                            cond = t.FALSE
                        elif k1 == 'i':
                            cond = t.and_(cond, t.eq(p1, p2))
                        elif p1 != p2:
                            cond = t.FALSE
                ex.oblige(s, 'post', cond, loc, 'the returned reference is the right object', spec.tags or spec.ref_tags)
        for tags, label, p in spec.post(ctx):
            self.post(ex, s, tags, label, p, loc)
        self.frame(ex, ctx, s, objs, mods, spec.tags or spec.frame_tags)

    def post(self, ex, s, tags, label, p, loc):
        from .exec import Obl
        if self.alias and self.spec.self_tags:
            tags = tuple(tags) + self.spec.self_tags
        ex.obls.append(Obl('post', label, loc, s.pc, p, s.trail, tags))

    def frame(self, ex, ctx, s, objs, mods, tags):
        from .exec import Obl
        for o, a, b in zip(objs, ctx.old, ctx.new):
            if not isinstance(o, Loc) or o.key() in mods or a is None or (isinstance(a, RecV) and not a.f):
                continue
            if same_value(a, b):
                p = t.TRUE
            else:
                p = S.SAME(a, b)
            ex.obls.append(Obl('frame', '%s is unchanged' % ex.meta[o.cell][1][-1], self.fn.get('l', ''), s.pc, p, s.trail, tags))

    # -------------------------------------------------------------- ownership
    def owned(self, o):
        """is the obligation one that was asked for? (want: None = all, 'posts' = every postcondition, or a set of properties)"""
        w = self.want
        if w is None:
            return True
        if o.tags:
            return not (set(o.tags) & self.skip and set(o.tags) <= self.skip | {'C07'}) if w == 'posts' else bool(w & set(o.tags))
        return w != 'posts' and 'C10' in w

    def support(self, o):
        """loop invariants and preconditions of callees: the proof of everything else rests on them"""
        return o.kind in ('invariant', 'precondition')

    # --------------------------------------------------------------- proving
    def path(self, pc, simplify=True):
        k = (simplify,) + tuple(sorted({x.id for x in pc}))
        p = self.paths.get(k)
        if p is None:
            p = smt.Path(list(pc), simplify)
            self.paths[k] = p
            if len(self.paths) > 40:
                self.paths.pop(next(iter(self.paths)))
        return p

    def prove(self, o, deadline):
        if o.goal is t.TRUE:
            return True, 'trivial'
        if any(h is o.goal for h in o.pc):
            return True, 'hypothesis'
        k = (tuple(sorted({x.id for x in o.pc})), o.goal.id)
        full = not (o.site is not None and self.inf.strength == 0 and self.inf.mode != 'annot')
        if k in self.cache and (self.cache[k][0] or not full):
            return self.cache[k]
        k2 = k + ('full',)
        if k2 in self.cache:
            return self.cache[k2]
        if time.time() > deadline:
            return False, 'out of time'
        r = self.path(o.pc, False).prove(o.goal, depth=0, deadline=deadline, nia=False)
        if not r[0]:
            dl = min(deadline, time.time() + 60)
            if not full:
                r = self.path(o.pc).prove(o.goal, depth=1, deadline=dl, nia=False)
            else:
                if bv.fits(o.goal):
                    # bit operations: exact bit vectors first
                    r = bv.prove(o.pc, o.goal)
                if not r[0] and not r[1].startswith('bit-vector countermodel'):
                    r = self.path(o.pc).prove(o.goal, deadline=dl)
        self.cache[k if r[0] or not full else k2] = r
        return r

    def run(self):
        res = Result()
        t0 = time.time()
        smt.STATS.update(queries=0, time=0.0)
        deadline = t0 + self.budget
        if self.base:
            t.reset(self.base[0])
        else:
            t.reset(10)
        try:
            self._run(res, deadline)
        except Refuse as e:
            res.refused = str(e)
        except X.Fuel:
            res.refused = 'too many paths'
        except X.ConcreteFault as e:
            res.refused = str(e)
        except RecursionError:
            res.refused = 'recursion'
        except NotImplementedError as e:
            res.refused = 'not encoded: %s' % e
        res.time = time.time() - t0
        res.queries, res.solver_time = smt.STATS['queries'], smt.STATS['time']
        return res

    def _run(self, res, deadline):
        if self.spec is None:
            raise Refuse('no contract')
        loops = has_loop(self.db, self.fn, self.specs)
        modes = [m for m in self.modes if m not in ('annot', 'adapt') or self.hints is not None or self.modes == ('annot',)] if loops else [self.modes[0]]
        annotated = None
        for mode in modes:
            inf = infer.Infer()
            self.inf = inf
            inf.hints = self.hints
            if self.alias == '01':
                ps = [p.get('n') for p in self.fn['params']]
                if 'cls' in self.fn and not self.fn.get('static'):
                    ps.insert(0, 'this')
                if len(ps) > 1 and ps[1]:
                    inf.same = {ps[1]: ps[0]}
            inf.mode = mode if mode in ('annot', 'adapt') else 'infer'
            inf.nloops = len(annotated.cands) if annotated else None
            inf.strength = 0 if mode == 'infer' else 1
            if loops and mode != 'annot':
                if self.samples is None:
                    self.sampler = inf
                    self.nsamples = self.sample(inf)
                    self.samples = inf.samples
                inf.samples = self.samples
                inf.mods_seen = {}
            res.obls = []
            ex = self.attempt(res, inf, deadline)
            res.mode = mode
            if mode == 'annot':
                annotated = inf
            if not res.failed() or time.time() > deadline:
                break
        self.final = ex
        if res.failed() and loops:
            res.structure = self.fits(annotated, inf)
        res.used = ex.used
        res.inlined = ex.inlined
        res.assumed = ex.assumed
        res.exits = self.exits
        res.loops = {str(k): {'line': inf.loops_seen.get(k), 'invariants': [c.name for c in v if c.id not in inf.dead],
                              'dec': next((m.name for m in inf.meas.get(k, ()) if m.id not in inf.dead), None)} for k, v in inf.cands.items()}
        if not self.exits and not self.fault:
            raise Refuse('no path through the function')

    def fits(self, a, inf):
        """None, or why the annotations do not describe this code (then a failed proof may just lack an invariant)"""
        if a is None:
            return 'no annotations'
        if a.unparsed:
            return 'the annotation %s speaks of something else' % a.unparsed[0][0]
        if len(a.cands) != len(self.hints):
            return '%d loops, %d annotated' % (len(a.cands), len(self.hints))
        for k, cs in a.cands.items():
            S = [x[0] for x in (self.samples or {}).get(k, ())]
            for c in cs:
                if not c.name.startswith('post(') and not infer.holds(c.f, S):
                    return 'the annotation %s does not hold in sample runs' % c.name
        return None

    def attempt(self, res, inf, deadline):
        for rnd in range(60):
            ex = self.execute(inf)
            bad = 0
            if self.want is not None and not any(self.owned(o) and not self.support(o) and o.goal is not t.TRUE for o in ex.obls):
                break       # nothing here needs the invariants
            for o in ex.obls:
                if o.site is None or o.site[1] in inf.dead or (o.kind == 'termination' and not self.owned(o)):
                    continue
                ok, how = self.prove(o, deadline)
                if not ok:
                    inf.dead.add(o.site[1])
                    self.lastdrop = (o.label, how)
                    bad += 1
                    if inf.mode == 'annot' and len(self.modes) > 1:
                        break       # the annotations do not fit this code
            res.rounds = rnd + 1
            if not bad or time.time() > deadline or (inf.mode == 'annot' and len(self.modes) > 1):
                break
        todo = [o for o in ex.obls if self.owned(o)]
        if self.want is not None and any(not self.support(o) and o.goal is not t.TRUE for o in todo):
            todo = [o for o in ex.obls if self.owned(o) or self.support(o)]
        for o in todo:
            q0 = time.time()
            if inf.mode == 'annot' and o.site is not None and o.site[1] in inf.dead and len(self.modes) > 1:
                ok, how = False, 'annotation does not hold'
            else:
                ok, how = self.prove(o, deadline)
            res.obls.append({'kind': o.kind, 'label': o.label, 'loc': o.loc, 'tags': list(o.tags), 'ok': ok, 'how': how,
                             'path': '/'.join(o.path[-6:]), 's': round(time.time() - q0, 3), 'goal': None if ok else t.pp(o.goal)[:600]})
            if not ok and inf.mode == 'annot' and len(self.modes) > 1:
                break
        return ex


LOOPS = ('while', 'for', 'do', 'range')


def has_loop(db, fn, specs, seen=None):
    """does the function, or anything it may inline, contain a loop?"""
    seen = seen or set()
    if fn['_k'] in seen:
        return False
    seen.add(fn['_k'])
    st = [fn.get('body'), fn.get('inits')]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if y.get('s') in LOOPS:
                return True
            f = y.get('f')
            if isinstance(f, dict) and 'id' in f and not f.get('sys'):
                g = db.fn(f['id'])
                if g is not None and inlined(specs, g) and has_loop(db, g, specs, seen):
                    return True
            if y.get('e') == 'lambda':
                g = db.fn(y['fid'])
                if g is not None and inlined(specs, g) and has_loop(db, g, specs, seen):
                    return True
            st.extend(v for k, v in y.items() if isinstance(v, (dict, list)) and k != 't')
        elif isinstance(y, list):
            st.extend(y)
    return False


def inlined(specs, fn):
    sp = specs.find(None, None, fn)
    return sp is None or sp.inline
