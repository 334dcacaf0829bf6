"""Index over the extracted AST."""
import json
import re


class DB:
    def __init__(self, path):
        d = json.load(open(path))
        self.F = d['functions']
        self.records = d['records']
        self.globals = d['globals']
        self.n = 0
        for k in sorted(self.F, key=int):
            f = self.F[k]
            f['_k'] = k
            self._number(f, k)
        for k in self.globals:
            if self.globals[k]:
                self._number(self.globals[k], 'g' + k)
        self.byqn = {}
        for f in self.F.values():
            self.byqn.setdefault(f['qn'], []).append(f)

    def _number(self, x, fk):
        st = [x]
        i = 0
        while st:
            y = st.pop()
            if isinstance(y, dict):
                if 'e' in y or isinstance(y.get('s'), str):
                    y['_n'] = '%s.%d' % (fk, i)
                    i += 1
                for k in sorted(y):
                    v = y[k]
                    if isinstance(v, (dict, list)) and k not in ('t', 'ps', 'rt', 'cls', 'ta'):
                        st.append(v)
            elif isinstance(y, list):
                st.extend(y)

    def fn(self, i):
        return self.F.get(str(i))


def base_name(f):
    """unqualified function name"""
    qn = f['qn']
    # strip template args of enclosing class, keep operators intact
    m = re.search(r'(operator.*|~?\w+)$', _strip(qn))
    return m.group(1) if m else qn


def _strip(s):
    """remove <...> groups except in operator names"""
    i = s.find('operator')
    head, tail = (s, '') if i < 0 else (s[:i], s[i:])
    out, d = [], 0
    for c in head:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
    return ''.join(out) + tail


def short(f):
    """short display name"""
    cls = f.get('cls')
    b = base_name(f)
    if cls:
        return '%s::%s' % (cls.get('b', cls.get('n')), b)
    return b
