"""Numeric abstract domain: linear forms over symbols and convex polyhedra
(constraint lists; emptiness and bounds by Fourier-Motzkin projection)."""
from fractions import Fraction
from math import gcd

_next = [1]
_shift = [0]     # added to the numbers of symbols that are read back (a second state beside another)


class Sym:
    """A symbolic scalar or opaque content. kind: 'n' natural, 'i' integer, 'r' real (time), 'o' opaque."""
    __slots__ = ('id', 'kind', 'name')

    def __init__(self, kind, name=''):
        self.id = _next[0]
        _next[0] += 1
        self.kind = kind
        self.name = name

    def __repr__(self):
        return '%s%d' % (self.name or self.kind, self.id)

    def __hash__(self):     # not the address: the order of sets of symbols is the same in every run
        return self.id

    def __lt__(self, o):
        return self.id < o.id

    def __getstate__(self):
        return (self.id, self.kind, self.name)

    def __setstate__(self, s):
        self.id, self.kind, self.name = s
        self.id += _shift[0]
        if self.id >= _next[0]:
            _next[0] = self.id + 1


class Lin:
    __slots__ = ('c', 't')

    def __init__(self, c, t):
        self.c = c
        self.t = t  # dict Sym -> coef (non-zero)

    def __repr__(self):
        s = ' + '.join(('%s' % k) if v == 1 else '%s*%s' % (v, k) for k, v in self.t.items())
        return s if not self.c else '%s + %s' % (s, self.c)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        return hash((self.c, frozenset((k.id, v) for k, v in self.t.items())))

    def __getstate__(self):
        return (self.c, list(self.t.items()))

    def __setstate__(self, s):
        self.c = s[0]
        self.t = dict(s[1])


class Term:
    """Uninterpreted numeric value (hash codes, unsupported arithmetic)."""
    __slots__ = ('k',)

    def __init__(self, *k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Term) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return 'T%r' % (self.k,)


def isnum(x):
    return isinstance(x, (int, Fraction, Lin, Term, float))


def lin(sym):
    return Lin(0, {sym: 1})


def fresh(kind='n', name=''):
    return lin(Sym(kind, name))


def mk(c, t):
    if not t:
        return c
    return Lin(c, t)


def add(a, b):
    if isinstance(a, Term) or isinstance(b, Term):
        if a == 0: return b
        if b == 0: return a
        return Term('+', a, b)
    la = isinstance(a, Lin)
    lb = isinstance(b, Lin)
    if not la and not lb:
        return a + b
    if not lb:
        return Lin(a.c + b, a.t)
    if not la:
        return Lin(a + b.c, b.t)
    t = dict(a.t)
    for k, v in b.t.items():
        w = t.get(k, 0) + v
        if w:
            t[k] = w
        else:
            t.pop(k, None)
    return mk(a.c + b.c, t)


def scale(a, k):
    if isinstance(a, Term):
        return a if k == 1 else Term('*', a, k)
    if isinstance(a, Lin):
        if k == 0:
            return 0
        return Lin(a.c * k, {s: v * k for s, v in a.t.items()})
    return a * k


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if isinstance(a, (Lin, Term)) and isinstance(b, (Lin, Term)):
        return Term('*', a, b)
    if isinstance(b, (Lin, Term)):
        return scale(b, a)
    return scale(a, b)


def syms(a):
    return a.t.keys() if isinstance(a, Lin) else ()


def substitute(a, defs):
    """Expand definitional equalities sym -> linear form."""
    if not isinstance(a, Lin):
        return a
    for k in a.t:
        if k in defs:
            break
    else:
        return a
    r = a.c
    for k, v in a.t.items():
        if k in defs:
            r = add(r, scale(substitute(defs[k], defs), v))
        else:
            r = add(r, Lin(0, {k: v}))
    return r


# --------------------------------------------------------------------- polyhedra
def norm_con(f, strict):
    """f >= 0 (or > 0).  Returns True/False for constants, else normalised (dict, const, strict)."""
    if not isinstance(f, Lin):
        return (f > 0) if strict else (f >= 0)
    t = f.t
    c = f.c
    allint = True
    d = 1
    for k, v in t.items():
        if k.kind == 'r':
            allint = False
        if isinstance(v, Fraction):
            d = d * v.denominator // gcd(d, v.denominator)
    if isinstance(c, Fraction):
        d2 = d * c.denominator // gcd(d, c.denominator)
    elif isinstance(c, float):
        c = Fraction(c)
        d2 = d * c.denominator // gcd(d, c.denominator)
    else:
        d2 = d
    if allint:
        ti = {k: int(v * d2) for k, v in t.items()}
        ci = int(c * d2)
        if strict:
            ci -= 1
            strict = False
        g = 0
        for v in ti.values():
            g = gcd(g, v)
        if g > 1:
            ti = {k: v // g for k, v in ti.items()}
            ci = ci // g  # floor
        return (ti, ci, False)
    ti = {k: int(v * d2) for k, v in t.items()}
    ci = c * d2
    g = 0
    for v in ti.values():
        g = gcd(g, v)
    if g > 1:
        ti = {k: v // g for k, v in ti.items()}
        ci = Fraction(ci) / g
    return (ti, ci, strict)


def key_con(c):
    return frozenset((k.id, v) for k, v in c[0].items())


def _simplify(cons):
    """Keep the tightest constraint for every direction; returns None when infeasible."""
    best = {}
    for t, c, s in cons:
        k = frozenset((x.id, v) for x, v in t.items())
        o = best.get(k)
        if o is None or c < o[1] or (c == o[1] and s and not o[2]):
            best[k] = (t, c, s)
    return list(best.values())


def infeasible(cons, wit=None):
    """cons: list of normalised constraints. Fourier-Motzkin with integer tightening.
    wit: dict to be filled with a point that satisfies the constraints (if one is found)."""
    for t, c, s in cons:
        if not t and (c < 0 or (s and c <= 0)):
            return True
    cons = _simplify([x for x in cons if x[0]])
    stack = []
    while True:
        if not cons:
            if wit is not None:
                _witness(stack, wit)
            return False
        # choose the variable with the cheapest elimination
        occ = {}
        for t, c, s in cons:
            for k, v in t.items():
                p = occ.get(k)
                if p is None:
                    p = occ[k] = [0, 0]
                if v > 0:
                    p[0] += 1
                else:
                    p[1] += 1
        var = None
        bc = None
        for k, (x, y) in occ.items():
            w = x * y
            if bc is None or w < bc or (w == bc and k.id < var.id):
                bc = w
                var = k
        pos, ng, rest = [], [], []
        for con in cons:
            v = con[0].get(var)
            if v is None:
                rest.append(con)
            elif v > 0:
                pos.append(con)
            else:
                ng.append(con)
        stack.append((var, pos, ng))
        if not pos or not ng:
            cons = rest
            continue
        for a in pos:
            kb = a[0][var]
            for b in ng:
                ka = -b[0][var]
                if ka == 1:
                    t = dict(a[0])
                else:
                    t = {k: v * ka for k, v in a[0].items()}
                for k, v in b[0].items():
                    w = t.get(k, 0) + v * kb
                    if w:
                        t[k] = w
                    else:
                        t.pop(k, None)
                c = a[1] * ka + b[1] * kb
                s = a[2] or b[2]
                if not t:
                    if (c <= 0) if s else (c < 0):
                        return True
                    continue
                r = norm_con(Lin(c, t), s)
                if r is False:
                    return True
                if r is not True:
                    rest.append(r)
        cons = _simplify(rest)
        if len(cons) > 400:
            return False


def _witness(stack, wit):
    pt = {}
    for var, pos, ng in reversed(stack):
        lo = hi = None
        los = his = False
        for t, c, s in pos:
            v = t[var]
            x = c
            for k, w in t.items():
                if k is not var:
                    y = pt.get(k)
                    if y is None:
                        y = pt[k] = 0
                    x += w * y
            b = Fraction(-x) / v
            if lo is None or b > lo:
                lo, los = b, s
            elif b == lo:
                los = los or s
        for t, c, s in ng:
            v = t[var]
            x = c
            for k, w in t.items():
                if k is not var:
                    y = pt.get(k)
                    if y is None:
                        y = pt[k] = 0
                    x += w * y
            b = Fraction(x) / -v
            if hi is None or b < hi:
                hi, his = b, s
            elif b == hi:
                his = his or s
        if var.kind == 'r':
            if lo is None and hi is None:
                z = 0
            elif lo is None:
                z = hi - 1
            elif hi is None:
                z = lo + 1
            elif lo == hi:
                z = lo
            else:
                z = (lo + hi) / 2
        elif lo is None and hi is None:
            z = 0
        elif lo is None:
            z = hi.numerator // hi.denominator - 1
        else:
            z = -((-lo.numerator) // lo.denominator)
            if hi is None:
                z += 1
            elif z > hi:
                return      # no integer here
        pt[var] = z
    wit.update(pt)


def edge(t, c, s):
    """(from, to, weight) of a difference constraint, None for others"""
    n = len(t)
    if n == 1:
        (x, v), = t.items()
        if v == 1:
            return (x, None, (c, -1 if s else 0))
        if v == -1:
            return (None, x, (c, -1 if s else 0))
        return None
    if n == 2:
        (x, v), (y, w) = t.items()
        if v == 1 and w == -1:
            return (x, y, (c, -1 if s else 0))
        if v == -1 and w == 1:
            return (y, x, (c, -1 if s else 0))
    return None


def shortest(edges, src, dst, limit):
    """is there a path src -> dst of weight <= limit (or a negative cycle)?"""
    dist = {src: (0, 0)}
    n = 0
    todo = [src]
    cnt = {}
    while todo:
        nxt = []
        inn = set()
        for u in todo:
            du = dist[u]
            for v, w in edges.get(u, ()):
                d = (du[0] + w[0], du[1] + w[1])
                o = dist.get(v)
                if o is None or d < o:
                    dist[v] = d
                    if v is dst and d <= limit:
                        return True
                    if v not in inn:
                        inn.add(v)
                        nxt.append(v)
        todo = nxt
        n += 1
        if n > len(edges) + 2:
            return True     # negative cycle: no solution at all
    return False


def adj(es, nat=()):
    out = {}
    for x, y, w in es:
        out.setdefault(x, []).append((y, w))
    for x in nat:
        out.setdefault(x, []).append((None, (0, 0)))
    return out


def relevant(cons, seed):
    """Constraints connected to the symbols in seed."""
    todo = set(seed)
    out = []
    left = list(cons)
    changed = True
    while changed:
        changed = False
        rest = []
        for con in left:
            if any(k in todo for k in con[0]):
                out.append(con)
                todo.update(con[0].keys())
                changed = True
            else:
                rest.append(con)
        left = rest
    return out


class Poly:
    __slots__ = ('cons', 'defs', '_c', '_w')

    def __init__(self):
        self.cons = []   # normalised constraints
        self.defs = {}   # Sym -> Lin
        self._c = {}
        self._w = []     # points known to satisfy the constraints

    def __getstate__(self):
        return ([(list(t.items()), c, s) for t, c, s in self.cons], list(self.defs.items()))

    def __setstate__(self, s):
        self.cons = [(dict(t), c, st) for t, c, st in s[0]]
        self.defs = dict(s[1])
        self._c = {}
        self._w = []

    def n(self, a):
        return substitute(a, self.defs)

    def entails(self, f, strict=False):
        f = self.n(f)
        r = norm_con(f, strict)
        if r is True or r is False:
            return r
        k = (frozenset((x.id, v) for x, v in r[0].items()), r[1], r[2])
        o = self._c.get(k)
        if o is not None:
            return o
        # natural symbols with non-negative coefficients
        ok = False
        if not r[2] and r[1] >= 0 and all(v > 0 and x.kind == 'n' for x, v in r[0].items()):
            ok = True
        else:
            rr = self._imply(r)
            ok = rr
        self._c[k] = ok
        return ok

    def _imply(self, r):
        t0, c0, s0 = r
        for w in self._w:
            x = c0
            for k, v in t0.items():
                y = w.get(k)
                if y is None:
                    break
                x += v * y
            else:
                if x < 0 or (s0 and x == 0):
                    return False
        n0 = len(t0)
        for t, c, s in self.cons:
            if len(t) == n0 and (c < c0 or c == c0 and (s or not s0)) and t == t0:
                return True
        ng = norm_con(Lin(-r[1], {x: -v for x, v in r[0].items()}), not r[2])
        if ng is True or ng is False:
            return not ng
        rel = relevant(self.cons, ng[0].keys())
        rel += [x for x in self.cons if not x[0]]
        vs = set(ng[0].keys())
        for c in rel:
            vs.update(c[0].keys())
        qe = edge(t0, c0, s0)
        if qe is not None:
            es = []
            pure = True
            for con in rel:
                e = edge(*con)
                if e is None:
                    pure = False
                else:
                    es.append(e)
            # implied: a path to -> from ... of the negation; x - y + c >= 0 follows from a path x -> y of weight <= c
            if shortest(adj(es, [x for x in vs if x.kind == 'n']), qe[0], qe[1], qe[2]):
                return True
            if pure:
                return False
        nat = [({x: 1}, 0, False) for x in vs if x.kind == 'n']
        wit = {}
        if infeasible(rel + nat + [ng], wit):
            return True
        if wit:
            allc = rel + nat
            for t, c, s in allc:
                x = c
                for k, v in t.items():
                    y = wit.get(k)
                    if y is None:
                        y = wit[k] = 0
                    x += v * y
                if x < 0 or (s and x == 0):
                    break
            else:
                self._w.append(wit)
                if len(self._w) > 24:
                    self._w.pop(0)
        return False

    def addc(self, f, strict=False):
        """assume f >= 0 (>0).  False if that is trivially impossible."""
        f = self.n(f)
        r = norm_con(f, strict)
        if r is True:
            return True
        if r is False:
            return False
        self.cons.append(r)
        self._c = {}
        if self._w:
            t, c, s = r
            keep = []
            for w in self._w:
                x = c
                for k, v in t.items():
                    y = w.get(k)
                    if y is None:
                        break
                    x += v * y
                else:
                    if x > 0 or (x == 0 and not s):
                        keep.append(w)
            self._w = keep
        return True

    def assume_eq(self, f):
        return self.addc(f) and self.addc(neg(f))

    def define(self, sym, f):
        """sym := f (sym must not occur in f)."""
        self.defs[sym] = f
        out = []
        for t, c, s in self.cons:
            if sym in t:
                r = norm_con(self.n(Lin(c, t)), s)
                if r is True:
                    continue
                if r is False:
                    r = ({}, -1, False)
                out.append(r)
            else:
                out.append((t, c, s))
        self.cons = out
        self._c = {}
        self._w = []

    def eq(self, a, b):
        d = self.n(sub(a, b))
        if not isinstance(d, Lin):
            return d == 0
        return self.entails(d) and self.entails(neg(d))

    def lower(self, f, cands=(1, 0)):
        """largest c among a few candidates with f >= c (None if none)."""
        for c in cands:
            if self.entails(sub(f, c)):
                return c
        return None
