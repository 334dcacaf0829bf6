"""What a check has to prove: the functions with obligations of a property, and the contracts they rest on."""
import signal
import time
from . import terms as t, specs as S, astdb, verify, contracts

OPT_TAGC = {'+': 'C01', '-': 'C02', '*': 'C03', '/': 'C04'}
# checks that also prove the contracts of all callees (the others leave that to the check that owns the callee's contract)
CLOSURE = {'C01', 'C02', 'C03', 'C04', 'C05', 'C09', 'C11', 'C12', 'C13', 'C14', 'C16', 'C17', 'C18'}


def props(spec):
    p = set(spec.props)
    if isinstance(spec, (S.Compound, S.Binary)):
        p.add(spec.tagc)
    return p


def search_seconds(prop, thorough):
    return 90 if thorough else 12


def walk(y, f):
    st = [y]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            f(y)
            for k, v in y.items():
                if isinstance(v, (dict, list)) and k != 't':
                    st.append(v)
        elif isinstance(y, list):
            st.extend(y)


def mine(db):
    """integer constants of the library's code: the search uses them as lengths and digits"""
    c = set()

    def f(y):
        if y.get('e') == 'int':
            try:
                v = int(y.get('v'))
            except (TypeError, ValueError):
                return
            if v >= 5:
                c.add(v & ((1 << 64) - 1))
    for g in db.F.values():
        if not g.get('sys'):
            walk([g.get('body'), g.get('inits')], f)
    usual = {7, 8, 9, 15, 31, 45, 48, 63, 99, 255, 65535, 4294967295}
    return sorted(c - usual)[:40] + sorted(c & usual)


def callees(db, fn):
    out = set()

    def f(y):
        g = y.get('f')
        if isinstance(g, dict) and 'id' in g and not g.get('sys'):
            out.add(str(g['id']))
        if y.get('e') == 'lambda':
            out.add(str(y['fid']))
    walk([fn.get('body'), fn.get('inits')], f)
    return [db.F[k] for k in sorted(out, key=int) if k in db.F and not db.F[k].get('sys')]


def reach(db, specs, fns):
    """functions whose contracts are used, directly or not"""
    seen, todo, used = set(), list(fns), {}
    while todo:
        g = todo.pop()
        if g['_k'] in seen:
            continue
        seen.add(g['_k'])
        for c in callees(db, g):
            sp = specs.find(None, None, c)
            if sp is not None and (not sp.inline):
                used[c['_k']] = c
            todo.append(c)
    return used


def cost(db, k, spec):
    n = type(spec).__name__
    if n == 'AbsDiv':
        return 100
    if n == 'AbsMul':
        return 80
    if n in ('Compound', 'Binary'):
        return 60 if spec.op == '/' else 30
    return {'AbsAdd': 50, 'AbsSub': 50, 'Ctor': 40, 'Print': 20}.get(n, 1)


def plan(db, prop, thorough):
    specs = S.Specs(db)
    opt = {k for k, f in db.F.items() if not f.get('sys') and (S.find_spec(db, f) or S.Spec('')).optional}
    specs.proved = opt
    own = {}
    for k, f in db.F.items():
        if f.get('sys'):
            continue
        s = S.find_spec(db, f)
        if s is None or prop not in props(s):
            continue
        for fault in ((True,) if prop == 'C15' else (False,)):
            if fault and not s.may_alloc:
                continue
            for al in s.alias_sets:
                own[(k, al, fault)] = {'fn': k, 'alias': al, 'fault': fault, 'want': [prop], 'own': True}
    tasks = dict(own)
    # what callees do with infinities and NaN is no part of what finite operands rest on
    skip = [] if prop in ('C07', 'C08', 'C09') else ['C08', 'C09']
    if prop in CLOSURE or thorough and prop != 'C19':
        for k, f in reach(db, specs, [db.F[x[0]] for x in own]).items():
            s = S.find_spec(db, f)
            for al in s.alias_sets:
                tasks[(k, al, False)] = dict(tasks.get((k, al, False), {'own': False}), fn=k, alias=al, fault=False, want='posts', skip=skip)
    out = []
    for key, x in tasks.items():
        f = db.F[key[0]]
        s = S.find_spec(db, f)
        if s.optional:
            x['optional'] = True
            x['want'] = 'posts' if not thorough else x['want']
        if thorough and not x['fault'] and prop != 'C19':
            x['want'] = None
        x['cost'] = cost(db, key[0], s)
        out.append(x)
    if not (prop in CLOSURE or thorough):
        # optional helper contracts are used by division: they are verified here too
        have = {x['fn'] for x in out}
        for k, f in reach(db, specs, [db.F[x[0]] for x in own]).items():
            s = S.find_spec(db, f)
            if s.optional and k not in have:
                out.append({'fn': k, 'alias': '', 'fault': False, 'want': 'posts', 'own': False, 'optional': True, 'cost': 1})
    if prop == 'C03':
        # its assumption about rounding takes for granted that the transforms are exact without it
        for k, f in db.F.items():
            s = None if f.get('sys') else S.find_spec(db, f)
            if isinstance(s, S.FFT) and not isinstance(s, S.RoundTrip):
                out.append({'fn': k, 'alias': '', 'fault': False, 'want': ['C19'], 'own': False, 'cost': 1})
    out.sort(key=lambda x: (-x['cost'], int(x['fn'])))
    return out


def tkey(x):
    return (x['fn'], x['alias'], x['fault'], x['want'] == ['C19'])


def describe(db, x):
    f = db.F[x['fn']]
    b = S.fn_base(db, f)
    return '%s%s%s%s%s' % (astdb.short(f), ' [%s]' % b[1] if b else (' <%s>' % f['cls']['n'] if f.get('cls') else ''),
                         ' (one object as both operands)' if x['alias'] else '', ' (allocation failure)' if x['fault'] else '',
                           ' (over the reals)' if x['want'] == ['C19'] else '')


class Late(BaseException):
    pass


def run_task(db, x, modes=('annot', 'adapt', 'infer', 'strong'), budget=200):
    f = db.F[x['fn']]
    b = S.fn_base(db, f)
    h = contracts.get(db, f, x['alias'], x['fault'], b and b[1], inline=bool(x.get('off')), real=x['want'] == ['C19'])
    if h is None and x['alias']:
        h = contracts.get(db, f, '', x['fault'], b and b[1], inline=bool(x.get('off')))
    if h is None and not x['fault']:
        h = contracts.similar(db, f)
        modes = tuple(m for m in modes if m != 'annot') if h else modes
    sp = S.Specs(db)
    off = set(x.get('off') or ())
    sp.proved = {k for k, g in db.F.items() if not g.get('sys') and k not in off and g is not f and (S.find_spec(db, g) or S.Spec('')).optional}
    want = x['want']
    if isinstance(want, list):
        want = set(want)
    budget = max(1, min(budget, x.get('limit', 1e18) - time.time()))
    v = verify.FnVerifier(db, f, x['alias'], x['fault'], budget=budget, hints=h, modes=modes, specs=sp, want=want)
    v.skip = set(x.get('skip') or ())
    def late(*a):
        raise Late()
    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(int(budget + 100))
    try:
        r = v.run()
    except Late:
        return x, {'refused': 'out of time', 'failed': [], 'n': 0, 'ok': 0, 'time': budget + 100, 'solver': 0, 'queries': 0}
    except Exception:
        import traceback
        return x, {'error': traceback.format_exc()[-1500:], 'failed': [], 'n': 0, 'ok': 0, 'time': 0, 'solver': 0, 'queries': 0}
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    fl = r.failed()
    kinds = {}
    for o in r.obls:
        kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
    names = lambda ks: sorted({astdb.short(db.F[str(k)]) if str(k) in db.F else str(k) for k in ks})
    slow = sorted(r.obls, key=lambda o: -o['s'])[:3]
    return x, {'refused': r.refused, 'failed': fl[:8], 'n': len(r.obls), 'ok': len(r.obls) - len(fl), 'time': r.time, 'solver': r.solver_time,
               'queries': r.queries, 'kinds': kinds, 'mode': r.mode, 'used': names(r.used), 'inlined': names(r.inlined), 'assumed': sorted(map(str, r.assumed)),
               'loops': r.loops, 'exits': r.exits, 'posts': sorted({o['label'] for o in r.obls if o['kind'] == 'post'}),
               'slow': [(o['label'], o['s']) for o in slow], 'structure': r.structure}


def failure(r):
    """None, 'failed', or the reason why nothing was decided"""
    if r.get('error'):
        return 'internal error: ' + r['error']
    if r.get('refused'):
        return 'not supported: ' + r['refused']
    if r['failed']:
        hard = [o for o in r['failed'] if o['how'] not in ('timeout', 'out of time')]
        if hard and r.get('structure'):
            return 'no proof found: the loops are not the annotated ones (%s), and the invariants found by inference do not suffice for: %s' % (r['structure'], hard[0]['label'])
        return 'failed' if hard else 'out of time'
    return None
