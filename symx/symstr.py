"""Symbolic fixed-length strings over a finite alphabet."""
from . import core
from .core import Unsupported

STRTYPES = None


class SymStr(object):
    """A string whose characters are concrete or symbolic (CharVar)."""
    __slots__ = ('cs',)

    def __init__(self, cs):
        self.cs = tuple(cs)

    # -- helpers
    @staticmethod
    def of(o):
        if isinstance(o, SymStr):
            return o.cs
        if isinstance(o, str):
            return tuple(o)
        return None

    def _eqseq(self, a, b):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not char_eq(x, y):
                return False
        return True

    def concrete(self):
        return ''.join(c if isinstance(c, str) else c.pick() for c in self.cs)

    def __len__(self):
        return len(self.cs)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymStr(self.cs[i])
        return SymStr((self.cs[i],))

    def __iter__(self):
        for c in self.cs:
            yield SymStr((c,))

    def __eq__(self, o):
        b = SymStr.of(o)
        if b is None:
            return NotImplemented
        return self._eqseq(self.cs, b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def _k(self):
        return self.concrete()

    def __lt__(self, o):
        return self._k() < str(o)

    def __le__(self, o):
        return self._k() <= str(o)

    def __gt__(self, o):
        return self._k() > str(o)

    def __ge__(self, o):
        return self._k() >= str(o)

    def __hash__(self):
        return hash(self.concrete())

    def __add__(self, o):
        b = SymStr.of(o)
        if b is None:
            return NotImplemented
        return SymStr(self.cs + b)

    def __radd__(self, o):
        b = SymStr.of(o)
        if b is None:
            return NotImplemented
        return SymStr(b + self.cs)

    def __mul__(self, n):
        return SymStr(self.cs * n)

    def __contains__(self, o):
        b = SymStr.of(o)
        if b is None:
            raise TypeError("'in <string>' requires string as left operand")
        n = len(b)
        return any(self._eqseq(self.cs[i:i + n], b)
                   for i in range(len(self.cs) - n + 1))

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(q, start, end) for q in p)
        b = SymStr.of(p)
        s = self.cs[start:end]
        return self._eqseq(s[:len(b)], b)

    def endswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.endswith(q) for q in p)
        b = SymStr.of(p)
        if not b:
            return True
        if len(b) > len(self.cs):
            return False
        return self._eqseq(self.cs[-len(b):], b)

    def isdigit(self):
        return len(self.cs) > 0 and all(
            c.isdigit() if isinstance(c, str) else c.member('0123456789')
            for c in self.cs)

    isdecimal = isnumeric = isdigit

    def count(self, sub):
        b = SymStr.of(sub)
        n, i, k = len(b), 0, 0
        while i + n <= len(self.cs):
            if self._eqseq(self.cs[i:i + n], b):
                k += 1
                i += n
            else:
                i += 1
        return k

    def find(self, sub, start=0):
        b = SymStr.of(sub)
        n = len(b)
        for i in range(start, len(self.cs) - n + 1):
            if self._eqseq(self.cs[i:i + n], b):
                return i
        return -1

    def index(self, sub, start=0):
        i = self.find(sub, start)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        return '<symstr>'

    def __format__(self, spec):
        return format('<symstr>', '')

    def __float__(self):
        return float(self.concrete())

    def __bool__(self):
        return len(self.cs) > 0

    def __deepcopy__(self, m):
        return self

    def __copy__(self):
        return self

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if hasattr(str, n):
            return getattr(self.concrete(), n)
        raise AttributeError(n)


def char_eq(x, y):
    if isinstance(x, str):
        if isinstance(y, str):
            return x == y
        return y.member(x)
    if isinstance(y, str):
        return x.member(y)
    if x is y:
        return True
    # two symbolic characters: resolve one of them
    return y.member(x.pick())


class CharVar(object):
    """A symbolic character; its current set of possible values is the exact
    solution set of the path condition (all constraints are unary)."""
    __slots__ = ('name', 'dom')

    def __init__(self, name, dom):
        self.name = name
        self.dom = frozenset(dom)

    def member(self, s):
        s = frozenset(s)
        yes = self.dom & s
        no = self.dom - s
        if not yes:
            return False
        if not no:
            return True
        v = core.CTX.chardecide(self, yes, no)
        self.dom = yes if v else no
        return v

    def pick(self):
        while len(self.dom) > 1:
            self.member(min(self.dom))
        return next(iter(self.dom))
