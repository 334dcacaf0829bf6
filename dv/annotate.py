"""Offline tool: find loop annotations by inference, reduce them, store them.
   python3-vt -m dv.annotate <regex on name:Spec> <bases> <aliases> <faults> [budget]"""
import re
import sys
import time
from multiprocessing import Pool
from . import astdb, contracts, specs as S, verify

DB = None


def check(fn, alias, fault, hints, budget=300):
    v = verify.FnVerifier(DB, fn, alias, fault, budget=budget, hints=hints, modes=('annot',))
    r = v.run()
    return not r.refused and not r.failed(), r


def reduce_(fn, alias, fault, loops, limit=600):
    t0 = time.time()
    cur = [dict(l) for l in loops]
    ok, r = check(fn, alias, fault, cur)
    if not ok:
        return None, r
    for li in range(len(cur)):
        n = max(1, len(cur[li]['inv']) // 2)
        while n >= 1 and time.time() - t0 < limit:
            i = 0
            while i < len(cur[li]['inv']) and time.time() - t0 < limit:
                inv = cur[li]['inv']
                c2 = list(cur)
                c2[li] = dict(cur[li], inv=inv[:i] + inv[i + n:])
                q, r2 = check(fn, alias, fault, c2, budget=max(5, 3 * r.time))
                if q:
                    cur, r = c2, r2
                else:
                    i += n
            n //= 2
    return cur, r


def work(task):
    k, alias, fault, budget = task
    fn = DB.F[k]
    b = S.fn_base(DB, fn)
    base = b and b[1]
    h = contracts.get(DB, fn, alias, fault, base)
    for cand in [h] + ([contracts.get(DB, fn, '', False, base)] if alias or fault else []):
        if cand is not None:
            ok, r = check(fn, alias, fault, cand)
            if ok:
                return task, 'annotated already %.1f' % r.time, cand
    v = verify.FnVerifier(DB, fn, alias, fault, budget=budget, hints=h)
    r = v.run()
    if r.refused or r.failed():
        return task, 'NOT PROVED %s %s %.1f' % (r.refused, [(o['kind'], o['label'], o['loc'].split('/')[-1], o['how'][:60]) for o in r.failed()[:4]], r.time), None
    loops = [{'inv': l['invariants'], 'dec': l['dec']} for l in r.loops.values()]
    if not loops:
        return task, 'no loops %.1f' % r.time, None
    small, r2 = reduce_(fn, alias, fault, loops)
    if small is None:
        return task, 'inferred %.1f but annotations fail: %s %s' % (r.time, r2.refused, [(o['kind'], o['label'], o['how'][:80]) for o in r2.failed()[:4]]), None
    return task, 'inferred %.1f, annotated %.1f' % (r.time, r2.time), small


def init():
    global DB
    DB = astdb.DB('/verif/build/ast.json')


if __name__ == '__main__':
    pat, bases, aliases, faults = sys.argv[1:5]
    budget = int(sys.argv[5]) if len(sys.argv) > 5 else 400
    init()
    tasks = []
    for k, f in DB.F.items():
        if f.get('sys'):
            continue
        s = S.find_spec(DB, f)
        if s is None or not re.search(pat, astdb.short(f) + ':' + type(s).__name__) or not verify.has_loop(DB, f):
            continue
        b = S.fn_base(DB, f)
        if (b and b[1] or 'None') not in bases.split(','):
            continue
        for al in aliases.split(','):
            al = '' if al == '-' else al
            if al and al not in s.alias_sets:
                continue
            for fa in faults.split(','):
                tasks.append((k, al, fa == '1', budget))
    with Pool(8, init) as p:
        for task, msg, loops in p.imap_unordered(work, tasks):
            fn = DB.F[task[0]]
            b = S.fn_base(DB, fn)
            print(astdb.short(fn), b and b[1], task[1], 'fault' if task[2] else '', msg, [len(l['inv']) for l in loops] if loops else '', flush=True)
            if loops is not None:
                contracts.save(DB, fn, task[1], task[2], b and b[1], loops)
