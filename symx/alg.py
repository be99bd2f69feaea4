"""Exact algebra used by the symbolic executor.

Poly : multivariate polynomial over Fraction coefficients, variables are small
       integers (atom numbers).
Rat  : coef * prod(factor**exp), factors are monic Polys, exponents may be
       negative.  Canonical enough that c/(c/s) is s and x-x is 0.
"""
from fractions import Fraction

F0, F1 = Fraction(0), Fraction(1)


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def _mono_key(m):
    # graded lexicographic order
    return (sum(e for _, e in m), m)


class Poly(object):
    __slots__ = ('t', '_h', '_lead')

    def __init__(self, terms):
        self.t = terms
        self._h = None
        self._lead = None

    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)} if c else {})

    @staticmethod
    def var(v):
        return Poly({((v, 1),): F1})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), F0)

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self is o or (hash(self) == hash(o) and self.t == o.t)

    def add(self, o):
        d = dict(self.t)
        for m, c in o.t.items():
            n = d.get(m, F0) + c
            if n:
                d[m] = n
            else:
                d.pop(m, None)
        return Poly(d)

    def scale(self, c):
        if not c:
            return Poly({})
        if c == 1:
            return self
        return Poly({m: k * c for m, k in self.t.items()})

    def mul(self, o):
        d = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                n = d.get(m, F0) + c1 * c2
                if n:
                    d[m] = n
                else:
                    d.pop(m, None)
        return Poly(d)

    def lead(self):
        if self._lead is None:
            self._lead = max(self.t, key=_mono_key)
        return self._lead

    def vars(self):
        return set(v for m in self.t for v, _ in m)

    def degree(self):
        return max((sum(e for _, e in m) for m in self.t), default=0)

    def divexact(self, o):
        """self / o if the division is exact, else None."""
        if not self.vars() >= o.vars():
            return None
        rem = dict(self.t)
        lo = o.lead()
        clo = o.t[lo]
        q = {}
        n = 0
        while rem:
            n += 1
            if n > 60:
                return None
            lm = max(rem, key=_mono_key)
            d = dict(lm)
            for v, e in lo:
                k = d.get(v, 0) - e
                if k < 0:
                    return None
                if k:
                    d[v] = k
                else:
                    d.pop(v, None)
            m = tuple(sorted(d.items()))
            c = rem[lm] / clo
            q[m] = c
            for m2, c2 in o.t.items():
                mm = _mono_mul(m, m2)
                x = rem.get(mm, F0) - c * c2
                if x:
                    rem[mm] = x
                else:
                    rem.pop(mm, None)
        return Poly(q)

    def evalf(self, env):
        s = 0.0
        for m, c in self.t.items():
            x = float(c)
            for v, e in m:
                x *= env(v) ** e
            s += x
        return s

    def evalq(self, env):
        s = F0
        for m, c in self.t.items():
            x = c
            for v, e in m:
                x *= env(v) ** e
            s += x
        return s


class Rat(object):
    __slots__ = ('c', 'f', '_h')

    def __init__(self, c, f):
        self.c = c
        self.f = f if c else {}
        self._h = None

    @staticmethod
    def const(c):
        return Rat(Fraction(c), {})

    @staticmethod
    def var(v):
        return Rat(F1, {Poly.var(v): 1})

    def is_const(self):
        return not self.f

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, frozenset(self.f.items())))
        return self._h

    def __eq__(self, o):
        return self is o or (self.c == o.c and self.f == o.f)

    def neg(self):
        return Rat(-self.c, self.f)

    def mul(self, o):
        if not self.c or not o.c:
            return Rat(F0, {})
        f = dict(self.f)
        for p, e in o.f.items():
            n = f.get(p, 0) + e
            if n:
                f[p] = n
            else:
                f.pop(p, None)
        return Rat(self.c * o.c, f)

    def inv(self):
        return Rat(1 / self.c, {p: -e for p, e in self.f.items()})

    def powi(self, n):
        if n == 0:
            return Rat.const(1)
        if not self.c:
            return self
        return Rat(self.c ** n, {p: e * n for p, e in self.f.items()})

    def num_den(self):
        """(Poly numerator, [(Poly, exp)] denominator factors)."""
        p = Poly.const(self.c)
        den = []
        for q, e in self.f.items():
            if e > 0:
                for _ in range(e):
                    p = p.mul(q)
            else:
                den.append((q, -e))
        return p, den

    def is_poly(self):
        return all(e > 0 for e in self.f.values())

    def evalf(self, env):
        x = float(self.c)
        for p, e in self.f.items():
            x *= p.evalf(env) ** e
        return x


def rat_from_poly(p, reduce=None):
    """Normalise a Poly to a Rat (extract content and monomial content)."""
    if reduce is not None:
        p = reduce(p)
    if not p.t:
        return Rat(F0, {})
    if p.is_const():
        return Rat(p.const_value(), {})
    # monomial content
    common = None
    for m in p.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {v: min(e, d[v]) for v, e in common.items() if v in d}
        if not common:
            break
    f = {}
    if common:
        terms = {}
        for m, c in p.t.items():
            mm = tuple((v, e - common.get(v, 0)) for v, e in m
                       if e - common.get(v, 0))
            terms[mm] = c
        p = Poly(terms)
        for v, e in common.items():
            f[Poly.var(v)] = e
    if p.is_const():
        return Rat(p.const_value(), f)
    lc = p.t[p.lead()]
    p = p.scale(1 / lc)
    f[p] = f.get(p, 0) + 1
    return Rat(lc, f)


def rat_add(a, b, reduce=None):
    if not a.c:
        return b
    if not b.c:
        return a
    if a.f == b.f:
        return Rat(a.c + b.c, a.f)
    g = {}
    pa = Poly.const(a.c)
    pb = Poly.const(b.c)
    for p in set(a.f) | set(b.f):
        ea, eb = a.f.get(p, 0), b.f.get(p, 0)
        m = min(ea, eb)
        if m:
            g[p] = m
        for _ in range(ea - m):
            pa = pa.mul(p)
        for _ in range(eb - m):
            pb = pb.mul(p)
    s = rat_from_poly(pa.add(pb), reduce)
    if not s.c:
        return s
    # cancel against denominators
    big = [p for p, e in s.f.items() if len(p.t) > 1 and e == 1]
    for p in big:
        q = p
        coef = F1
        for d, e in list(g.items()):
            while g.get(d, 0) < 0 and len(d.t) > 1:
                r = q.divexact(d)
                if r is None:
                    break
                g[d] += 1
                if not g[d]:
                    del g[d]
                q = r
                if q.is_const():
                    break
            if q.is_const():
                break
        if q is not p:
            rest = dict(s.f)
            del rest[p]
            s = Rat(s.c, rest).mul(rat_from_poly(q, reduce))
    return s.mul(Rat(F1, g))
