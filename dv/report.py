"""Evidence and replay files."""
import json
import os
import time
from . import tasks as T, specs as S, astdb

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUSTED = [
    'clang 18 front end (the extractor serialises its AST with every implicit conversion; libstdc++ 13 headers)',
    'the symbolic executor /verif/dv/exec.py and its model of the std containers, iterators, algorithms and streams used (/verif/dv/stdlib.py); validated on '
    'every run: dv/validate.py runs the functions concretely in the executor and in the compiled library and compares (see executor_vs_compiled)',
    'the lemma schemas instantiated by /verif/dv/smt.py about digit values: /verif/dv/lemmas.py proves the theorems behind them by induction, and the instances '
    'of every schema on generic shapes (the C17 check: all theorems, a sample of the instances); about transforms: /verif/lemmas/fft.lean (the C19 check)',
    'z3 5.3.2',
    'containers hold fewer than 2^56 elements',
]


class Report:
    def __init__(self, prop, tier, seed, start):
        self.prop, self.tier, self.seed, self.start = prop, tier, seed, start
        self.n = self.ok = self.queries = 0
        self.solver = 0.0
        self.functions = []
        self.undecided = []
        self.notes = []
        self.assumed = set()
        self.srch = None
        self.violations = 0
        self.extra = {}
        self.dir = os.path.join(HERE, 'evidence')
        os.makedirs(self.dir, exist_ok=True)

    def search(self, s, secs):
        self.srch = {'role': 'search for a failing input on the compiled code; not counted as proof', 'cases': s.count, 'distinct': s.distinct,
                     'seconds': secs, 'configurations': s.built, 'samples': s.samples[:10]}
        if s.problem:
            self.srch['problem'] = s.problem

    def replay_path(self, ext):
        p = os.path.join(self.dir, 'replay_%s.%s' % (self.prop, ext))
        return p

    def results(self, db, rs):
        kinds = {}
        for task, r in rs:
            self.n += r['n']
            self.ok += r['ok']
            self.solver += r['solver']
            self.queries += r['queries']
            for k, v in r.get('kinds', {}).items():
                kinds[k] = kinds.get(k, 0) + v
            self.assumed |= set(r.get('assumed', ()))
            d = T.describe(db, task)
            f = T.failure(r)
            if f:
                self.undecided.append({'function': d, 'why': f[:400]})
            self.functions.append({'function': d, 'own': task['own'], 'obligations': r['n'], 'discharged': r['ok'], 'seconds': round(r['time'], 2),
                                   'loops': {k: v['invariants'] for k, v in r.get('loops', {}).items()}, 'contracts_used': r.get('used', []),
                                   'invariants_from': {'annot': 'contracts/loops.json'}.get(r.get('mode'), 'inference')})
        self.kinds = kinds
        self.functions.sort(key=lambda x: x['function'])

    def failed_obligation(self, db, bad, path):
        task, r = bad
        with open(path, 'w') as f:
            f.write('property %s: an obligation generated from the current source does not hold\n\n' % self.prop)
            f.write('function: %s\n' % T.describe(db, task))
            for o in r['failed']:
                f.write('\nobligation: %s: %s\n  at: %s\n  path: %s\n  goal: %s\n  verifier: %s\n' % (o['kind'], o['label'], o['loc'], o['path'], o['goal'], o['how']))
            f.write('\nno failing input was found by the search on the compiled library (%s cases)\n' % (self.srch or {}).get('cases'))

    def violation(self, path, note):
        self.violations = 1
        self.write()
        print('VIOLATION property=%s replay=%s%s' % (self.prop, path, ' ' + note if note else ''), flush=True)

    def write(self):
        proved = sorted({c for f in self.functions for c in f['contracts_used']})
        mine = sorted({f['function'].split(' ')[0] for f in self.functions})
        cov = {'obligations': self.n, 'discharged': self.ok,
               'checker_cmd': 'python3-vt /verif/check.py %s %s' % (self.prop, self.tier),
               'back_end': 'z3 (linear integer arithmetic with instantiated lemmas; nonlinear and bit-vector fallbacks)',
               'solver_seconds': round(self.solver, 1), 'solver_queries': self.queries,
               'obligations_by_kind': getattr(self, 'kinds', {}),
               'trusted_base': TRUSTED,
               'functions_under_contract': self.functions,
               'contracts_used_but_proved_by_another_check': [c for c in proved if c not in mine],
               'bounded_stand_ins': [dict(u, bounded=True, bound='the %s cases of the concrete search' % ((self.srch or {}).get('cases'))) for u in self.undecided],
               'search': self.srch, 'notes': self.notes}
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'proof', 'coverage': cov,
              'assumptions': sorted(self.assumed) + S.ASSUMPTIONS.get(self.prop, []), 'wall_s': round(time.time() - self.start, 1), 'violations': self.violations}
        with open(os.path.join(self.dir, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
