"""Decides one property on /repo's current tree: check.py <id> [quick|thorough]

1. search for a failing input on the compiled library (a failing input is the most useful report, so it comes first);
2. extract the instantiated functions from /repo's sources and prove every obligation the property owns.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from multiprocessing import get_context

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from dv import terms as t, exec as X, specs as S, astdb, verify, contracts, concrete, tasks as T, report, validate, lemmas  # noqa: E402

REPO = os.environ.get('BN_REPO', '/repo')     # another tree only during development
JOBS = max(2, min(8, os.cpu_count() or 8))


def log(*a):
    print('[%6.1f]' % (time.time() - START), *a, flush=True)


def extract(tmp, notes):
    """serialises the functions of the current tree; returns the path or raises"""
    b = os.path.join(HERE, 'build', 'bnextract')
    newest = max(os.path.getmtime(os.path.join(HERE, 'extract', f)) for f in ('bnextract.cpp', 'build.sh'))
    if not os.path.exists(b) or os.path.getmtime(b) < newest:
        try:
            subprocess.run(['bash', os.path.join(HERE, 'extract', 'build.sh'), os.path.join(HERE, 'build')], check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        except OSError:
            pass
    out = os.path.join(tmp, 'ast.json')
    first = None
    for how in ([], ['-DBN_DRIVER_SHIMS'], ['-DBN_DRIVER_BUILTIN']):
        r = subprocess.run([b, out, os.path.join(HERE, 'extract', 'driver.cpp'), '--', '-std=gnu++11', '-DNDEBUG', '-I' + REPO, '-I' + REPO + '/include', '-O2'] + how,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=tmp)
        if not r.returncode and os.path.exists(out):
            if how:
                notes.append('extracted with %s (see extract/driver.cpp), since clang rejects the tree otherwise: %s' % (how[0], first[:300]))
            break
        errs = [x for x in r.stdout.decode(errors='replace').splitlines() if 'error:' in x]
        first = first or '; '.join(errs[:2])
        if os.path.exists(out):
            os.unlink(out)
    else:
        raise RuntimeError('the extraction of the functions failed: ' + (first or '?'))
    return out


DB = None
SPECS_OFF = frozenset()


def work(task):
    return T.run_task(DB, task)


def main():
    global START, DB
    START = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rep = report.Report(prop, tier, seed, START)
    tmp = tempfile.mkdtemp(prefix='bnverif.')
    srch = concrete.Search(prop, seed, JOBS, REPO)
    try:
        return decide(prop, tier, seed, rep, tmp, srch)
    finally:
        srch.close()
        shutil.rmtree(tmp, ignore_errors=True)


def same_as_compiled(tasks, ext, rep, seconds):
    """runs the functions the proofs are about in the executor and in the compiled library; {function: why it does not count}"""
    if not ext.get('lib'):
        rep.notes.append('the executor was not compared with the compiled code: %s' % ext.get('liberr', 'the library for it does not build'))
        return {}
    t0 = time.time()
    above = {}
    todo = [x['fn'] for x in tasks]
    seen = set(todo)
    while todo:
        k = todo.pop()
        for g in T.callees(DB, DB.F[k]):
            above.setdefault(g['_k'], set()).add(k)
            if g['_k'] not in seen:
                seen.add(g['_k'])
                todo.append(g['_k'])
    keys = [k for k in validate.candidates(DB) if k in seen]
    r = validate.compare(ext['ast'], ext['lib'], keys, 8, JOBS, seconds)
    bad = {k: x['differ'] for k, x in r.items() if x.get('differ')}
    wrong = {}
    todo = list(bad)
    for k in bad:
        wrong[k] = 'the executor does not run it like the compiled library: ' + bad[k]
    while todo:
        k = todo.pop()
        for g in above.get(k, ()):
            if g not in wrong:
                wrong[g] = 'it rests on %s, which the executor does not run like the compiled library' % astdb.short(DB.F[k])
                todo.append(g)
    skipped = {}
    for k, x in r.items():
        if x.get('skip'):
            skipped.setdefault(x['skip'][:80], set()).add(astdb.short(DB.F[k]))
    rep.extra['executor_vs_compiled'] = {'functions': len(keys), 'agree': sum(1 for x in r.values() if x['n'] and not x.get('differ') and not x.get('skip')),
                                         'calls': sum(x['n'] for x in r.values()), 'differ': sorted(bad.values())[:20],
                                         'not_comparable': {k: sorted(v) for k, v in sorted(skipped.items())}, 'seconds': round(time.time() - t0, 1)}
    log('executor and compiled code compared on %s calls of %s functions: %d differ' % (rep.extra['executor_vs_compiled']['calls'], len(keys), len(bad)))
    return wrong


def prove_lemmas(rep, seed, seconds):
    """the theorems the lemma schemas rest on, for every base; and as many of the instances as the time allows"""
    t0 = time.time()
    bases = sorted(S.BASES.values())
    of = 200
    jobs = [(B, -1, of, False, None) for B in bases]
    jobs += [(bases[i % len(bases)], (seed * JOBS + i) % of, of, False, t0 + seconds) for i in range(JOBS if seconds < 100 else 4 * JOBS)]
    n, bad = {}, []
    with get_context('fork').Pool(JOBS) as pool:
        for (B, part, *_), (cnt, b) in zip(jobs, pool.imap(lemma_run, jobs, chunksize=1)):
            bad += ['base %d: %s' % (B, x) for x in b]
            for k, v in cnt.items():
                if (part == -1) == (k == 'theorems'):
                    n[k] = n.get(k, 0) + v
    rep.extra['lemmas'] = {'proved_by': 'dv/lemmas.py', 'proved': n, 'bases': bases, 'instances': 'every %dth formula of a generated list, from %d places' % (of, len(jobs) - len(bases)),
                           'not_proved': bad, 'seconds': round(time.time() - t0, 1)}
    for x in bad:
        rep.undecided.append({'function': 'lemma', 'why': x[:400]})
    log('lemmas: %s, not proved: %s' % (n, bad[:3]))


def prove_fft(rep):
    """the theorems behind the transforms' contracts"""
    t0 = time.time()
    names = ['dft_one', 'dft_lo', 'dft_hi', 'twiddle', 'idft_dft', 'dft_idft', 'cnv_dft', 'convolution', 'value', 'neg_mod']
    try:
        r = subprocess.run(['lean', os.path.join(HERE, 'lemmas', 'fft.lean')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
        out = r.stdout.decode(errors='replace')
        ok = not r.returncode and 'sorry' not in out and 'error' not in out
    except (OSError, subprocess.TimeoutExpired) as e:
        ok, out = False, repr(e)
    rep.extra['theorems'] = {'checked_by': 'lean 4 with Mathlib: lemmas/fft.lean', 'accepted': ok, 'theorems': names, 'axioms': sorted(set(re.findall(r'\b(propext|Classical\.choice|Quot\.sound|sorryAx)\b', out))),
                             'seconds': round(time.time() - t0, 1)}
    if not ok:
        rep.undecided.append({'function': 'theorems', 'why': 'lean does not accept lemmas/fft.lean: ' + out[:300]})
    log('lemmas/fft.lean: %s' % ('accepted' if ok else out[:300]))


def lemma_run(x):
    try:
        return lemmas.run(*x)
    except lemmas.Failed as e:
        return {}, [str(e)]


def decide(prop, tier, seed, rep, tmp, srch):
    global DB
    thorough = tier == 'thorough'
    srch.build()
    ext = {}

    def ex():
        try:
            ext['ast'] = extract(tmp, rep.notes)
        except Exception as e:
            ext['err'] = str(e)

    def lib():
        try:
            ext['lib'] = validate.build(tmp, REPO)
        except Exception as e:
            ext['liberr'] = str(e)
    th = [threading.Thread(target=f) for f in (ex, lib)]
    for x in th:
        x.start()
    srch.wait()
    for x in th:
        x.join()
    consts = []
    if 'ast' in ext:
        DB = astdb.DB(ext['ast'])
        consts = T.mine(DB)
    log('built' + (', constants %s' % consts[:12]))
    secs = T.search_seconds(prop, thorough)
    fail = srch.run(secs, consts)
    rep.search(srch, secs)
    log('search: %d cases, %d distinct%s' % (srch.count, srch.distinct, '' if not srch.problem else ' PROBLEM ' + srch.problem))
    if fail:
        path = rep.replay_path('sh')
        concrete.replay_script(prop, fail, path)
        log('failing input: %s %s' % (fail[0], fail[2][:600]))
        rep.violation(path, None)
        return 1
    if 'err' in ext:
        # without the AST there is nothing to prove from: only the search stands
        rep.undecided.append({'function': '*', 'why': ext['err']})
        log(ext['err'])
        rep.write()
        return 0 if srch.built else 2
    limit = START + (800 if thorough and not os.environ.get('BN_LONG') else 560)
    tasks = T.plan(DB, prop, thorough)
    log('%d function instances' % len(tasks))
    wrong = same_as_compiled(tasks, ext, rep, 40 if thorough else 15)
    if prop == 'C17':
        prove_lemmas(rep, seed, 200 if thorough else 60)
    if prop == 'C19':
        prove_fft(rep)
    bad = None
    again = []
    ctx = get_context('fork')
    res = {}

    def go(ts, stop):
        nonlocal bad
        with ctx.Pool(JOBS) as pool:
            it = pool.imap_unordered(work, [dict(x, limit=limit) for x in ts], chunksize=1)
            for task, r in it:
                if task['fn'] in wrong and not r.get('error'):
                    r = dict(r, failed=[], ok=0, n=0, refused=wrong[task['fn']])
                res[T.tkey(task)] = (task, r)
                f = T.failure(r)
                if f == 'failed':
                    if task.get('optional'):
                        continue
                    log('FAILED', T.describe(DB, task), r['failed'][0]['kind'], r['failed'][0]['label'], r['failed'][0]['loc'], r['failed'][0]['how'][:200])
                    if stop and (bad is None):
                        bad = (task, r)
                        pool.terminate()
                        break
                elif f:
                    log('UNDECIDED', T.describe(DB, task), f[:300])
    go([x for x in tasks if x.get('optional')], False)
    off = sorted(k for k, (task, r) in res.items() if task.get('optional') and T.failure(r))
    offk = sorted({res[k][0]['fn'] for k in off})
    for k in off:
        rep.notes.append('the optional contract of the helper %s does not hold: it is inlined at its call sites' % T.describe(DB, res[k][0]))
        del res[k]
    go([dict(x, off=offk) for x in tasks if not x.get('optional')], True)
    if bad is not None or any(T.failure(r) for task, r in res.values()):
        # something is not proved: search again, for longer
        secs = max(0, min(75, int(START + 760 - time.time())))
        if secs > 5:
            fail = srch.run(secs, consts, 500009)
            rep.search(srch, secs)
            log('second search: %d cases in all' % srch.count)
            if fail:
                path = rep.replay_path('sh')
                concrete.replay_script(prop, fail, path)
                log('failing input: %s %s' % (fail[0], fail[2][:600]))
                rep.results(DB, list(res.values()))
                rep.violation(path, None)
                return 1
    rep.results(DB, list(res.values()))
    log('%d obligations, %d discharged, solver %.1f s' % (rep.n, rep.ok, rep.solver))
    if bad:
        path = rep.replay_path('txt')
        rep.failed_obligation(DB, bad, path)
        rep.violation(path, 'no-failing-input-found')
        return 1
    rep.write()
    if srch.problem and not srch.built and rep.undecided:
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
