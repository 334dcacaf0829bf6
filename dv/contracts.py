"""Storage of the loop annotations (contracts/loops.json)."""
import json
import os
from . import astdb, specs as S

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'loops.json')
_data = None


def data():
    global _data
    if _data is None:
        try:
            with open(FILE) as f:
                _data = json.load(f)
        except FileNotFoundError:
            _data = {}
    return _data


def key(db, fn, alias, fault):
    return '%s:%s%s%s' % (astdb.short(fn), type(S.find_spec(db, fn)).__name__, '|' + alias if alias else '', '|fault' if fault else '')


def get(db, fn, alias, fault, base, inline=False, real=False):
    d = data()
    for k in ([key(db, fn, alias, fault) + '|real'] if real else []) + ([key(db, fn, alias, fault) + '|inline'] if inline else []) + [key(db, fn, alias, fault)] + \
            ([key(db, fn, alias, False)] if fault else []):
        e = d.get(k)
        if e is not None:
            return e.get(base or 'None', e.get('*'))
    return None


def similar(db, fn):
    """annotations written for other functions under the same kind of contract"""
    suffix = ':' + type(S.find_spec(db, fn)).__name__
    out = []
    for k, e in sorted(data().items()):
        if k.endswith(suffix):
            for loops in e.values():
                out += [x for x in loops if x not in out]
    return out or None


def save(db, fn, alias, fault, base, loops):
    d = data()
    e = d.setdefault(key(db, fn, alias, fault), {})
    e[base or 'None'] = loops
    same = [b for b in e if b != '*' and e[b] == loops]
    if '*' not in e:
        e['*'] = loops
    for b in list(e):
        if b != '*' and e[b] == e['*']:
            del e[b]
    os.makedirs(os.path.dirname(FILE), exist_ok=True)
    with open(FILE, 'w') as f:
        json.dump(d, f, indent=1, sort_keys=True)
        f.write('\n')
