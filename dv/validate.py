"""Does the executor run the code the way the compiled library does?

Every instantiated function with a contract is called on concrete inputs twice: by the executor (the same code that
generates the obligations, with constants for unknowns) and in a shared library that g++ makes of the same translation
unit (through its mangled name and the Itanium ABI). The objects afterwards, the returned value or reference, and the
text written to a stream must agree. A function on which they differ is not counted as proved.
"""
import ctypes
import json
import os
import random
import struct
import subprocess
import sys
import time
from . import terms as t, exec as X, specs as S, astdb, samples
from .values import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HELP = '''
#include <sstream>
#include <string>
#include <type_traits>
#include "bignum/bignum.h"
extern "C" {
void* bnv_os() { return static_cast<std::ostream*>(new std::ostringstream); }
long bnv_os_len(void* o) { return (long)static_cast<std::ostringstream*>(static_cast<std::ostream*>(o))->str().size(); }
void bnv_os_get(void* o, char* p) { std::string s = static_cast<std::ostringstream*>(static_cast<std::ostream*>(o))->str(); s.copy(p, s.size()); }
void* bnv_new(size_t n) { return n ? ::operator new(n) : nullptr; }
void bnv_del(void* p) { ::operator delete(p); }
int bnv_trivial = std::is_trivially_copy_constructible<BNIntType<BN_UINT8, 2>>::value && std::is_trivially_move_constructible<BNIntType<BN_UINT8, 2>>::value && std::is_trivially_destructible<BNIntType<BN_UINT8, 2>>::value;
}
'''


def build(tmp, repo):
    out = os.path.join(tmp, 'libv.so')
    h = os.path.join(tmp, 'bnv_help.cpp')
    with open(h, 'w') as f:
        f.write(HELP)
    for how in ([], ['-DBN_DRIVER_BUILTIN']):
        r = subprocess.run(['g++', '-std=gnu++11', '-w', '-DNDEBUG', '-O1', '-fno-inline', '-fkeep-inline-functions', '-shared', '-fPIC', '-I' + repo, '-I' + repo + '/include'] + how +
                           [os.path.join(HERE, 'extract', 'driver.cpp'), h, '-o', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=tmp)
        if r.returncode == 0:
            return out
    return None


DOUBLE = {'k': 'float', 'n': 'double', 'w': 64}


class Skip(Exception):
    pass


class Differ(Exception):
    pass


class Machine:
    """objects of the executor laid out in memory"""

    def __init__(self, db, lib):
        self.db = db
        self.lib = lib
        for n, rt, at in (('bnv_os', ctypes.c_void_p, []), ('bnv_os_len', ctypes.c_long, [ctypes.c_void_p]), ('bnv_os_get', None, [ctypes.c_void_p, ctypes.c_char_p]),
                          ('bnv_new', ctypes.c_void_p, [ctypes.c_size_t]), ('bnv_del', None, [ctypes.c_void_p])):
            f = getattr(lib, n)
            f.restype, f.argtypes = rt, at
        self.trivial = bool(ctypes.c_int.in_dll(lib, 'bnv_trivial').value)
        self.lay = {}

    def size(self, ty):
        """(size, alignment)"""
        k = ty['k']
        if k in ('int', 'enum'):
            return ty['w'] // 8, ty['w'] // 8
        if k == 'bool':
            return 1, 1
        if k == 'float' and ty.get('w', 64) == 64:
            return 8, 8
        if k == 'rec':
            if ty['b'] == 'std::vector':
                return 24, 8
            if ty['b'] == 'std::complex':
                return 16, 8
            o, s, a = self.fields(ty['n'])
            return s, a
        raise Skip('type %s' % k)

    def fields(self, n):
        r = self.lay.get(n)
        if r is None:
            rec = self.db.records.get(n)
            if not rec or 'f' not in rec or rec.get('bases') or not rec['f']:
                raise Skip('record %s' % n)
            off, al, o = 0, 1, {}
            for f in rec['f']:
                s, a = self.size(f['t'])
                off = (off + a - 1) // a * a
                o[f['n']] = (off, f['t'])
                off += s
                al = max(al, a)
            r = self.lay[n] = (o, (off + al - 1) // al * al, al)
        return r

    def put(self, p, ty, v):
        k = ty['k']
        if k in ('int', 'enum', 'bool'):
            n = self.size(ty)[0]
            if k == 'bool':
                v = t.b2i(v)
            if v.op != 'num':
                raise Skip('not a constant')
            ctypes.memmove(p, (v.v & ((1 << 8 * n) - 1)).to_bytes(n, 'little'), n)
        elif k == 'float':
            if v.op != 'num':
                raise Skip('not a constant')
            ctypes.memmove(p, struct.pack('<d', float(v.v)), 8)
        elif k == 'rec' and ty['b'] == 'std::complex':
            self.put(p, DOUBLE, v.f['re'])
            self.put(p + 8, DOUBLE, v.f['im'])
        elif k == 'rec' and ty['b'] == 'std::vector':
            et = ty['a'][0]
            es = self.size(et)[0]
            n = v.size.v
            b = self.lib.bnv_new(n * es) or 0
            for i in range(n):
                self.put(b + i * es, et, self.elem(v, i, et))
            for j, x in enumerate((b, b + n * es, b + n * es)):
                ctypes.memmove(p + 8 * j, x.to_bytes(8, 'little'), 8)
        elif k == 'rec':
            o, s, a = self.fields(ty['n'])
            for f, (off, ft) in o.items():
                if f in v.f:
                    self.put(p + off, ft, v.f[f])
        else:
            raise Skip('value %s' % k)

    def elem(self, v, i, et, path=()):
        """element i of a vector value: its leaf (element types are integers or records of one integer)"""
        if et['b'] == 'std::complex' if et['k'] == 'rec' else False:
            return RecV(et['n'], {x: t.sel(v.arrs[(x,)], t.num(i)) for x in ('re', 'im')})
        if len(v.arrs) != 1:
            raise Skip('elements with several parts')
        x = t.sel(v.arr(), t.num(i))
        while et['k'] == 'rec':
            o, s, a = self.fields(et['n'])
            if len(o) != 1:
                raise Skip('elements with several parts')
            (f, (off, ft)), = o.items()
            return RecV(et['n'], {f: x}) if ft['k'] != 'rec' else RecV(et['n'], {f: self.elem(v, i, ft)})
        return x

    def check(self, p, ty, v, what):
        """the memory at p holds v"""
        k = ty['k']
        if k in ('int', 'enum', 'bool'):
            n = self.size(ty)[0]
            if k == 'bool' and v.s == 'B':
                v = t.b2i(v)
            if v.op != 'num':
                raise Skip('not a constant')
            x = int.from_bytes(ctypes.string_at(p, n), 'little')
            if x != v.v & ((1 << 8 * n) - 1):
                raise Differ('%s: executor %s, compiled %s' % (what, v.v, x))
        elif k == 'float':
            if v.op != 'num':
                raise Skip('not a constant')
            x, = struct.unpack('<d', ctypes.string_at(p, 8))
            y = float(v.v)
            # the executor rounds each operation once; compilers may contract them
            if not abs(x - y) <= 1e-9 * (1 + abs(y)):
                raise Differ('%s: executor %r, compiled %r' % (what, y, x))
        elif k == 'rec' and ty['b'] == 'std::complex':
            self.check(p, DOUBLE, v.f['re'], what + '.re')
            self.check(p + 8, DOUBLE, v.f['im'], what + '.im')
        elif k == 'rec' and ty['b'] == 'std::vector':
            et = ty['a'][0]
            es = self.size(et)[0]
            b, e = (int.from_bytes(ctypes.string_at(p + 8 * j, 8), 'little') for j in (0, 1))
            if v.size.op != 'num':
                raise Skip('not a constant')
            if (e - b) // es != v.size.v:
                raise Differ('%s: executor has %s elements, compiled %s' % (what, v.size.v, (e - b) // es))
            for i in range(v.size.v):
                self.check(b + i * es, et, self.elem(v, i, et), '%s[%d]' % (what, i))
        elif k == 'rec':
            o, s, a = self.fields(ty['n'])
            for f, (off, ft) in o.items():
                if isinstance(v, RecV) and v.f.get(f) is not None:
                    self.check(p + off, ft, v.f[f], what + '.' + f)
        else:
            raise Skip('value %s' % k)

    def address(self, p, ty, path):
        """address of a part of the object at p"""
        for k, x in path:
            if k == 'f':
                o, s, a = self.fields(ty['n'])
                off, ty = o[x]
                p += off
            else:
                et = ty['a'][0]
                p = int.from_bytes(ctypes.string_at(p, 8), 'little') + x.v * self.size(et)[0]
                ty = et
        return p

    def release(self, p, ty):
        if ty['k'] == 'rec' and ty['b'] == 'std::vector':
            b = int.from_bytes(ctypes.string_at(p, 8), 'little')
            if b:
                self.lib.bnv_del(b)
        elif ty['k'] == 'rec' and ty['b'] != 'std::basic_ostream':
            for off, ft in self.fields(ty['n'])[0].values():
                if ft['k'] == 'rec':
                    self.release(p + off, ft)


def strip(ty):
    return ty['t'] if ty['k'] == 'ref' else ty


def types_of(fn):
    """(this type or None, parameter types)"""
    cls = None
    if 'cls' in fn and not fn.get('static'):
        if fn['cls'].get('b') == 'lambda':
            raise Skip('lambda')
        cls = dict(fn['cls'], k='rec')
    return cls, [p['t'] for p in fn['params']]


def one(db, m, fn, rng, k, alias):
    """True if the function was run on sample k by both, None if there is no such sample"""
    spec = S.find_spec(db, fn)
    f = getattr(m.lib, fn['mangled'])
    cls, ps = types_of(fn)
    ex = X.Exec(db, 'conc', specs=S.Specs(db), loops=None, fuel=200000)
    st = X.State()
    r = samples.concrete_setup(ex, st, fn, spec, alias, rng, k)
    if r is None:
        raise Skip('no inputs')
    this, args, objs = r
    ctx = S.CallCtx(ex, spec, fn, objs, alias)
    ctx.enter(st)
    if not all(p is t.TRUE for _, p in spec.pre(ctx)):
        return None
    # the same objects in memory
    mem = []
    cells = {}
    cargs = []

    def obj(loc, ty):
        if loc.cell in cells:
            return cells[loc.cell][0]
        if ty['k'] == 'rec' and ty['b'] == 'std::basic_ostream':
            p = m.lib.bnv_os()
        else:
            n = m.size(ty)[0]
            b = ctypes.create_string_buffer(n + 16)
            mem.append(b)
            p = ctypes.addressof(b)
            p = (p + 15) // 16 * 16
            v = st.store[loc.cell]
            if not (isinstance(v, RecV) and not v.f):
                m.put(p, ty, v)
        cells[loc.cell] = (p, ty)
        return p
    if this is not None:
        cargs.append(ctypes.c_uint64(obj(this, cls)))
    for a, ty in zip(args, ps):
        if ty['k'] == 'ref':
            cargs.append(ctypes.c_uint64(obj(a, ty['t'])))
        elif isinstance(a, ILV):
            et = ty['a'][0]
            v = st.store[a.loc.cell]
            es = m.size(et)[0]
            b = ctypes.create_string_buffer(v.size.v * es + 16)
            mem.append(b)
            p = ctypes.addressof(b)
            for i in range(v.size.v):
                m.put(p + i * es, et, m.elem(v, i, et))
            cargs += [ctypes.c_uint64(p), ctypes.c_uint64(v.size.v)]
        elif ty['k'] in ('int', 'enum', 'bool'):
            v = t.b2i(a) if ty['k'] == 'bool' else a
            cargs.append(ctypes.c_uint64(v.v & ((1 << 64) - 1)))
        elif ty['k'] == 'rec' and ty['b'] in ('BNIntType', 'Bignum') and isinstance(a, RecV):
            # by value: a temporary of the caller's, or in a register when it is trivial to copy
            n = m.size(ty)[0]
            b = ctypes.create_string_buffer(n + 16)
            mem.append(b)
            p = (ctypes.addressof(b) + 15) // 16 * 16
            m.put(p, ty, a)
            if ty['b'] == 'BNIntType' and m.trivial:
                p = int.from_bytes(ctypes.string_at(p, n), 'little')
            cargs.append(ctypes.c_uint64(p))
        else:
            raise Skip('parameter %s' % ty['k'])
    try:
        rs = ex.call_body(st, fn, this, args, {'_n': 'top'})
    except X.Fuel:
        return None
    except (X.ConcreteFault, Refuse, RecursionError) as e:
        raise Skip(str(e)[:80])
    if len(rs) != 1:
        raise Skip('several paths')
    s2, ret = rs[0]
    if isinstance(ret, Thrown):
        return None     # calls through ctypes cannot catch it
    rt = fn.get('rt') or {'k': 'void'}
    sret = None
    f.restype = ctypes.c_uint64
    if rt['k'] == 'rec':
        n = m.size(rt)[0]
        if rt['b'] == 'BNIntType' and m.trivial:
            pass
        else:
            b = ctypes.create_string_buffer(n + 16)
            mem.append(b)
            sret = (ctypes.addressof(b) + 15) // 16 * 16
            cargs.insert(0, ctypes.c_uint64(sret))
    elif rt['k'] not in ('void', 'int', 'enum', 'bool', 'ref'):
        raise Skip('result %s' % rt['k'])
    x = f(*cargs)
    for c, (p, ty) in cells.items():
        v = s2.store.get(c)
        what = astdb.short(fn)
        if ty['k'] == 'rec' and ty['b'] == 'std::basic_ostream':
            n = m.lib.bnv_os_len(p)
            b = ctypes.create_string_buffer(n + 1)
            m.lib.bnv_os_get(p, b)
            w = ''.join(v.v) if v.op == 'cout' else None
            if w is None:
                raise Skip('output')
            if w != b.raw[:n].decode('latin1'):
                raise Differ('%s: executor writes %r, compiled %r' % (what, w[:80], b.raw[:n][:80]))
        elif '~' not in fn['qn']:
            m.check(p, ty, v, what)
    if rt['k'] == 'ref':
        if isinstance(ret, Loc) and ret.cell in cells:
            p, ty = cells[ret.cell]
            w = m.address(p, ty, ret.path) if ret.path else p
            if w != x:
                raise Differ('%s returns a reference to something else' % what)
    elif rt['k'] in ('int', 'enum', 'bool'):
        v = t.b2i(ret) if ret.s == 'B' else ret
        if v.op != 'num':
            raise Skip('not a constant')
        n = m.size(rt)[0]
        if v.v & ((1 << 8 * n) - 1) != x & ((1 << 8 * n) - 1):
            raise Differ('%s: executor returns %s, compiled %s' % (what, v.v, x & ((1 << 8 * n) - 1)))
    elif rt['k'] == 'rec':
        v = ex.rval(s2, ret)
        if sret:
            m.check(sret, rt, v, what + ' (result)')
            m.release(sret, rt)
        else:
            n = m.size(rt)[0]
            b = ctypes.create_string_buffer(x.to_bytes(8, 'little')[:n])
            m.check(ctypes.addressof(b), rt, v, what + ' (result)')
    return True


def run(db, libpath, keys, n, out, seed=3, seconds=1e9):
    """one line of JSON per function: {k, n (samples compared), skip or differ}"""
    m = Machine(db, ctypes.CDLL(libpath))
    end = time.time() + seconds
    for k in keys:
        fn = db.F[k]
        spec = S.find_spec(db, fn)
        b = S.fn_base(db, fn)
        t.reset(b[0] if b else 10)
        rng = random.Random(seed * 1000003 + int(k))
        done, res = 0, {'k': k}
        out.write('@%s\n' % k)
        out.flush()
        try:
            t0 = time.time()
            for alias in spec.alias_sets:
                for j in range(4 * n):
                    if done >= n or time.time() - t0 > 6 or time.time() > end:
                        break
                    if one(db, m, fn, rng, j, alias):
                        done += 1
        except Skip as e:
            res['skip'] = str(e)
        except Differ as e:
            res['differ'] = str(e)
        except (AttributeError, KeyError, OSError) as e:
            res['skip'] = 'not callable: %s' % str(e)[-80:]
        res['n'] = done
        out.write(json.dumps(res) + '\n')
        out.flush()


def candidates(db):
    return [k for k, f in db.F.items() if not f.get('sys') and f.get('mangled') and S.find_spec(db, f) is not None and f.get('body') is not None]


def compare(ast, lib, keys, n=12, jobs=8, seconds=60):
    """runs the workers; returns {k: result}; a crashing call is reported as such"""
    res = {}
    todo = [list(keys[i::jobs]) for i in range(jobs)]
    end = time.time() + seconds
    procs = []
    for ks in todo:
        if ks:
            procs.append([start(ast, lib, ks, n, end), ks])
    while procs:
        nxt = []
        for p, ks in procs:
            try:
                o, _ = p.communicate(timeout=max(1, end + 30 - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                o, _ = p.communicate()
            last = None
            for l in o.decode(errors='replace').splitlines():
                if l.startswith('@'):
                    last = l[1:]
                elif l.startswith('{'):
                    r = json.loads(l)
                    res[r['k']] = r
                    last = None
            if last is not None:
                res[last] = {'k': last, 'n': 0, 'skip': 'the compiled function ends the process (code %s)' % p.returncode}
            rest = [k for k in ks if k not in res]
            if last is not None and rest and time.time() < end:
                nxt.append([start(ast, lib, rest, n, end), rest])
        procs = nxt
    return res


def start(ast, lib, ks, n, end):
    return subprocess.Popen([sys.executable, '-m', 'dv.validate', ast, lib, str(n), '%.1f' % (end - time.time())], cwd=HERE,
                            stdin=write(ks), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)


def write(ks):
    r, w = os.pipe()
    with os.fdopen(w, 'w') as f:
        f.write('\n'.join(ks))
    return r


if __name__ == '__main__':
    run(astdb.DB(sys.argv[1]), sys.argv[2], sys.stdin.read().split(), int(sys.argv[3]), sys.stdout, seconds=float(sys.argv[4]))
