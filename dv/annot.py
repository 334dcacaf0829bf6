"""Loop annotations: the text of an invariant or measure <-> a term over an Env.

    V(a.arr, i)     value of the first i digits of a      V(a.arr)  of all
    R(l.arr, i)     Horner value of the first i digits, most significant first
    B^e             power of the base                     a.arr[i]  a digit
    x@loop, x@call  value when the loop / the function was entered
    valid(a.arr)    digits below the base                 canon(a.arr)  no leading zeroes
    post(a, label)  a postcondition of the function, said of a
    tail(a.arr, i)  the digits from i up are what they were when the loop was entered
    eqn(L, M, n)  eqr(L, M, lo, hi)   complex lists agree below n, or from lo up to hi; L, M are a list (a, a@loop), ev(L), od(L) (every
                    second element), conj(L), dft(L, n), idft(L, n), cnv(L, n)
    render(a.arr, i) the output so far shows the digits of a from the top down to i
"""
import re
from . import terms as t
from .values import *

TOK = re.compile(r'\s*(?:(\d+)|([A-Za-z_$][\w.$]*(?:@loop|@call)?)|(==|<=|>=|->|&&|\|\||[-+*^()\[\],<>!]))')


class Syntax(Exception):
    pass


def small(n):
    """an exponent or length; absurd ones come from reading a name as the wrong variable"""
    if n.op == 'num' and abs(n.v) > 20000:
        raise KeyError('too large')
    return n


def tokens(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Syntax('%s at %d' % (s, i))
        if m.group(1):
            out.append(('n', int(m.group(1))))
        elif m.group(2):
            out.append(('id', m.group(2)))
        else:
            out.append(('op', m.group(3)))
        i = m.end()
    out.append(('end', None))
    return out


class Parser:
    """parses to a closure Env -> term; names are looked up in `names`: lname -> leaf key"""

    def __init__(self, s, names, transfer=None, val=None, bools=()):
        self.s = s
        self.k = tokens(s)
        self.i = 0
        self.names = names
        self.transfer, self.val, self.bools = transfer, val, bools

    def peek(self, op=None):
        a = self.k[self.i]
        return a == ('op', op) if op else a

    def take(self, op=None):
        a = self.k[self.i]
        if op and a != ('op', op):
            raise Syntax('%s: %s expected, got %r' % (self.s, op, a))
        self.i += 1
        return a

    def resolve(self, n):
        """the leaf of that name; a wrapped integer may be a plain one and the other way round"""
        for a, b in [('', '')] + list(self.names.get('<same>', {}).items()):
            m = b + n[len(a):] if n == a or n.startswith(a + '.') else n
            for x in (m, m[:-4] if m.endswith('.num') else m + '.num'):
                if x in self.names:
                    return x
        raise KeyError(n)

    def leaf(self, n):
        when = 'cur'
        if n.endswith('@loop'):
            n, when = n[:-5], 'pre'
        elif n.endswith('@call'):
            n, when = n[:-5], 'fn'
        n = self.resolve(n)
        lk = self.names[n]

        def get(e):
            return getattr(e, when)[lk]
        sz = (lk[0], lk[1][:-1] + (('size',),))

        def size(e):
            return getattr(e, when)[sz]
        return lk, get, size

    # formulas
    def formula(self):
        a = self.conj()
        while self.peek('||'):
            self.take()
            b = self.conj()
            a = (lambda a, b: lambda e: t.or_(a(e), b(e)))(a, b)
        if self.peek('->'):
            self.take()
            b = self.formula()
            return lambda e: t.imp(a(e), b(e))
        return a

    def conj(self):
        a = self.rel()
        while self.peek('&&'):
            self.take()
            b = self.rel()
            a = (lambda a, b: lambda e: t.and_(a(e), b(e)))(a, b)
        return a

    def rel(self):
        if self.peek('!'):
            self.take()
            a = self.rel()
            return lambda e: t.not_(a(e))
        if self.peek('('):
            # a parenthesised formula or expression
            save = self.i
            try:
                self.take()
                f = self.formula()
                self.take(')')
                if self.k[self.i] in (('end', None), ('op', '&&'), ('op', '||'), ('op', '->'), ('op', ')')):
                    return f
            except Syntax:
                pass
            self.i = save
        kind, x = self.peek()
        if kind == 'id' and x in ('valid', 'canon', 'render', 'tail') and self.k[self.i + 1] == ('op', '('):
            self.take()
            self.take('(')
            lk, ga, gs = self.leaf(self.take()[1])
            if x == 'render':
                self.take(',')
                n = self.expr()
                self.take(')')
                out = self.names['<out>']
                return lambda e: t.eq(e.cur[out], t.render(e.pre[out], ga(e), gs(e), n(e)))
            if x == 'tail':
                self.take(',')
                n = self.expr()
                self.take(')')
                sz = (lk[0], lk[1][:-1] + (('size',),))
                return lambda e: t.aeqr(e.cur[lk], e.pre[lk], n(e), e.pre[sz])
            self.take(')')
            if x == 'valid':
                return lambda e: t.valid(ga(e), gs(e))
            return lambda e: t.or_(t.le(gs(e), t.ZERO), t.le(t.pow_(t.addn(gs(e), -1)), t.V(ga(e), gs(e))))
        if kind == 'id' and x in ('eqn', 'eqr') and self.k[self.i + 1] == ('op', '('):
            self.take()
            self.take('(')
            a = self.clist()
            self.take(',')
            b = self.clist()
            self.take(',')
            lo = None
            if x == 'eqr':
                lo = self.expr()
                self.take(',')
            n = self.expr()
            self.take(')')

            def agree(e):
                u, v = a(e), b(e)
                if lo is None:
                    return t.and_(*[t.aeqn(p, q, n(e)) for p, q in zip(u, v)])
                return t.and_(*[t.aeqr(p, q, lo(e), n(e)) for p, q in zip(u, v)])
            return agree
        a = self.expr()
        kind, op = self.peek()
        if kind == 'op' and op in ('==', '<=', '>=', '<', '>'):
            self.take()
            b = self.expr()
            f = {'==': t.eq, '<=': t.le, '>=': t.ge, '<': t.lt, '>': t.gt}[op]
            return lambda e: f(a(e), b(e))
        raise Syntax('%s: relation expected' % self.s)

    def clist(self):
        """a complex list: Env -> (real parts, imaginary parts)"""
        kind, x = self.take()
        if kind != 'id':
            raise Syntax('%s: %r' % (self.s, x))
        if x in ('ev', 'od', 'conj', 'dft', 'idft', 'cnv') and self.peek('('):
            self.take()
            a = self.clist()
            n = None
            if x in ('dft', 'idft', 'cnv'):
                self.take(',')
                n = self.expr()
            self.take(')')
            if n is not None:
                return lambda e: tuple(t.transform(x, *a(e), small(n(e)), part=p) for p in ('re', 'im'))
            if x == 'conj':
                return lambda e: (lambda u: (u[0], t.aneg(u[1])))(a(e))
            return lambda e: tuple(t.stride(u, int(x == 'od')) for u in a(e))
        m, at = (x[:-5], x[-5:]) if x.endswith(('@loop', '@call')) else (x, '')
        gs = [self.leaf(m + '.' + p + at)[1] for p in ('re', 'im')]
        return lambda e: tuple(g(e) for g in gs)

    def expr(self):
        a = self.term()
        while self.peek('+') or self.peek('-'):
            op = self.take()[1]
            b = self.term()
            if op == '+':
                a = (lambda a, b: lambda e: t.add(a(e), b(e)))(a, b)
            else:
                a = (lambda a, b: lambda e: t.sub(a(e), b(e)))(a, b)
        return a

    def term(self):
        a = self.factor()
        while self.peek('*'):
            self.take()
            b = self.factor()
            a = (lambda a, b: lambda e: t.mul(a(e), b(e)))(a, b)
        return a

    def factor(self):
        kind, x = self.take()
        if kind == 'n':
            return lambda e: t.num(x)
        if (kind, x) == ('op', '-'):
            a = self.factor()
            return lambda e: t.neg(a(e))
        if (kind, x) == ('op', '('):
            a = self.expr()
            self.take(')')
            return a
        if kind != 'id':
            raise Syntax('%s: %r' % (self.s, x))
        if x == 'B':
            if self.peek('^'):
                self.take()
                a = self.factor()
                return lambda e: t.pow_(small(a(e)))
            return lambda e: t.num(t.Ctx.B)
        if x in ('V', 'R', 'min', 'max', 'size') and self.peek('('):
            self.take('(')
            if x in ('min', 'max'):
                a = self.expr()
                self.take(',')
                b = self.expr()
                self.take(')')
                return (lambda e: t.min2(a(e), b(e))) if x == 'min' else (lambda e: t.max2(a(e), b(e)))
            lk, ga, gs = self.leaf(self.take()[1])
            n = gs
            if self.peek(','):
                self.take()
                old = self.names.get('size')
                self.sizeof, sv = gs, getattr(self, 'sizeof', None)
                n = self.expr()
                self.sizeof = sv
            self.take(')')
            if x == 'size':
                return gs
            if x == 'V':
                return lambda e: t.V(ga(e), small(n(e)))
            return lambda e: t.R(ga(e), small(n(e)))
        if x == 'size' and getattr(self, 'sizeof', None) is not None:
            return self.sizeof
        lk, ga, gs = self.leaf(x)
        if self.peek('['):
            self.take()
            n = self.expr()
            self.take(']')
            return lambda e: t.sel(ga(e), n(e))
        if lk in self.bools:
            return lambda e: t.b2i(ga(e))
        return ga


POST = re.compile(r'post\(([^,]+), (.*)\)$')


def parse(s, names, mkpost=None, bools=()):
    """formula text -> closure; raises Syntax or KeyError"""
    m = POST.match(s)
    if m:
        f = mkpost(m.group(1), m.group(2)) if mkpost else None
        if f is None:
            raise KeyError(s)
        return f
    p = Parser(s, names, bools=bools)
    f = p.formula()
    if p.peek()[0] != 'end':
        raise Syntax(s)
    return f


def parse_expr(s, names, bools=()):
    p = Parser(s, names, bools=bools)
    f = p.expr()
    if p.peek()[0] != 'end':
        raise Syntax(s)
    return f
