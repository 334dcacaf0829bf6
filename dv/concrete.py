"""Search for a failing input on the real, compiled library (and replay of one)."""
import os
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASES = {'base10': ('bignum_base10', 'bn_limits_base10', '10'), 'lowp': ('bignum_lowp', 'bn_limits_lowp', '256'),
         'base2': ('bignum_base2', 'bn_limits_base2', '2'), 'medp': ('bignum_medp', 'bn_limits_medp', '65536'),
         'highp': ('bignum_highp', 'bn_limits_highp', '4294967296ULL'), 'base16': ('bignum_base16', 'bn_limits_base16', '16'),
         'base8': ('bignum_base8', 'bn_limits_base8', '8')}
SAN = ['-O1', '-fsanitize=address,undefined,float-divide-by-zero,float-cast-overflow', '-fno-sanitize-recover=all',
       '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR=1']


def command(prop, base, out, repo='/repo'):
    """the compiler call of one harness"""
    src = sorted(os.path.join(repo, 'src', f) for f in os.listdir(os.path.join(repo, 'src')) if f.endswith('.cpp'))
    c = ['g++', '-std=gnu++14', '-w', '-DNDEBUG', '-I%s/include' % repo]
    if base == 'ints':
        return c + ['-O2', '%s/replay/ints.cpp' % HERE] + src + ['-o', out]
    n, l, b = BASES[base]
    c += ['-DBNT=' + n, '-DLIMITS=' + l, '-DBBASE=' + b]
    c += SAN if prop == 'C10' else ['-O2', '-DFAULTS']
    return c + ['%s/replay/harness.cpp' % HERE] + src + ['-o', out]


class Search:
    """builds the harnesses of a property and runs them"""

    def __init__(self, prop, seed, jobs=8, repo='/repo'):
        self.prop, self.seed, self.jobs, self.repo = prop, seed, jobs, repo
        self.dir = tempfile.mkdtemp(prefix='bnverif.')
        self.count = self.distinct = 0
        self.samples = []
        self.problem = None
        self.built = []
        if prop == 'C14':
            self.targets = ['ints']
        elif prop == 'C18':
            self.targets = list(BASES)
        else:
            self.targets = list(BASES)
        self.pool = ThreadPoolExecutor(jobs)

    def build(self):
        """starts the compilers; returns the futures"""
        def one(t):
            r = subprocess.run(command(self.prop, t, os.path.join(self.dir, t), self.repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=self.dir)
            return t, r.returncode, r.stdout.decode(errors='replace')
        self.futures = [self.pool.submit(one, t) for t in self.targets]

    def wait(self):
        for f in self.futures:
            t, rc, out = f.result()
            if rc:
                self.problem = 'the harness for %s does not build: %s' % (t, out[:1500])
            else:
                self.built.append(t)

    def run(self, secs, consts, shift=0):
        """returns a failure (target, line) or None"""
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0')
        jobs = []
        for t in self.built:
            n = 6 if t == 'ints' else 1
            for k in range(n):
                jobs.append((t, self.seed + shift + 1000 * k))

        def one(j):
            t, seed = j
            p = subprocess.Popen([os.path.join(self.dir, t), 'search', self.prop, str(seed), str(secs)] + [str(c) for c in consts],
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=self.dir)
            try:
                out, err = p.communicate(timeout=secs + 200)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                return t, None, '', ''
            return t, p.returncode, out.decode(errors='replace'), err.decode(errors='replace')
        fail = None
        for t, rc, out, err in self.pool.map(one, jobs):
            m = re.search(r'^COUNT (\d+) (\d+)$', out, re.M)
            if m:
                self.count += int(m.group(1))
                self.distinct += int(m.group(2))
                ls = out[m.end():].strip().split('\n')
                self.samples += ['%s: %s' % (t, l) for l in ls[:2] if l]
            m = re.search(r'^(FAIL|CRASH|HANG) (.*)$', out, re.M)
            if m and (fail is None or len(m.group(2)) < len(fail[2])):
                fail = (t, m.group(1), m.group(2), err[:3000])
            elif rc not in (0, 1):
                self.problem = self.problem or 'search on %s ended with %s' % (t, rc)
        return fail

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        self.pool.shutdown(wait=False)


def replay_script(prop, fail, path):
    """writes a script that shows the failure again"""
    t, kind, line, err = fail
    case, _, msg = line.partition(' :: ')
    args = ' '.join("'%s'" % a for a in case.split())
    cmd = ' '.join("'%s'" % a for a in command(prop, t, 'OUT')).replace("'OUT'", '"$d/h"')
    with open(path, 'w') as f:
        f.write('#!/bin/bash\n# property %s, %s: %s %s\n' % (prop, t, kind, msg.replace('\n', ' ')[:1500]))
        f.write('# (numbers are written descriptor:digits, least significant first, 9x100 is the digit 9 a hundred times; =n is an integer argument)\n')
        for l in err.split('\n')[:25]:
            f.write('# ' + l + '\n')
        f.write('d=$(mktemp -d); trap \'command rm -r "$d"\' EXIT\n%s || exit 2\n' % cmd)
        f.write('ASAN_OPTIONS=detect_leaks=0 timeout 60 "$d/h" case %s %s\n' % (prop, args))
    os.chmod(path, 0o755)
