"""Offline tool: records with each annotated loop the variables that exist there (used to recognise renamed ones)."""
import subprocess
import sys
import tempfile
from multiprocessing import Pool
from . import astdb, contracts, specs as S, tasks as T, verify

DB = None


def work(k):
    fn = DB.F[k]
    b = S.fn_base(DB, fn)
    s = S.find_spec(DB, fn)
    opt = [q for q, f in DB.F.items() if not f.get('sys') and S.find_spec(DB, f) is not None and S.find_spec(DB, f).optional]
    out = []
    for inline in (False, True):
        h = contracts.get(DB, fn, '', False, b and b[1], inline=inline)
        if h is None:
            continue
        sp = S.Specs(DB)
        sp.proved = set() if inline else set(opt) - {k}
        v = verify.FnVerifier(DB, fn, '', False, budget=1, hints=h, modes=('annot',), specs=sp)
        v.run()
        out.append((contracts.key(DB, fn, '', False) + ('|inline' if inline else ''), b and b[1], v.inf.heads))
    return out


def main():
    global DB
    DB = astdb.DB(sys.argv[1])
    ks = [k for k, f in DB.F.items() if not f.get('sys') and S.find_spec(DB, f) is not None]
    d = contracts.data()
    with Pool(8) as p:
        for out in p.imap_unordered(work, ks):
            for key, base, heads in out:
                e = d.get(key)
                if e is None:
                    continue
                for loops in e.values():
                    if len(loops) == len(heads):
                        for l, h in zip(loops, heads):
                            l['vars'] = sorted(set(l.get('vars', [])) | set(h))
                    else:
                        print('loops', key, base, len(loops), len(heads))
    import json
    with open(contracts.FILE, 'w') as f:
        json.dump(d, f, indent=1, sort_keys=True)
        f.write('\n')


if __name__ == '__main__':
    main()
