"""The two worlds a harness can run in.

SymWorld : symbolic inputs, checks are proof obligations for the solver.
ConWorld : concrete inputs (from a solver model), the unmodified real code,
           checks are evaluated numerically with a tolerance.
"""
import io
import math
import random
import re
import sys
from fractions import Fraction

import z3

from . import core, mathshim
from .core import (SymReal, SymBool, mk, mk_cmp, to_rat, b_and, b_or, b_not,
                   PathEnd, Found, Unsupported, Steer)
from .alg import Rat
from .symstr import SymStr, CharVar


class Discard(Exception):
    """concrete inputs do not meet the harness's assumptions"""


class Failed(Exception):
    def __init__(self, label, detail=''):
        self.label, self.detail = label, detail


class Close(object):
    """a == b up to tol (absolute, plus rel * magnitude when concrete)."""

    def __init__(self, a, b, tol):
        self.a, self.b, self.tol = a, b, tol


class Capture(object):
    """what the code prints, as text; its numbers are read by number()"""

    def __init__(self, sym):
        self.sym = sym

    def __enter__(self):
        self.buf, self.out = io.StringIO(), sys.stdout
        self.old = core.CAPTURING, core.PRINTED
        core.CAPTURING = True
        if self.sym:
            core.PRINTED = self.nums = []
        sys.stdout = self.buf
        return self

    def __exit__(self, *a):
        sys.stdout = self.out
        core.CAPTURING, core.PRINTED = self.old
        self.text = self.buf.getvalue()
        return False

    def number(self, text):
        m = re.match('(-?)\u27e8(\\d+)\u27e9$', text)
        if m:
            x = self.nums[int(m.group(2))]
            return -x if m.group(1) else x
        return float(text)


class Base(object):
    def capture(self):
        return Capture(self.sym)

    def close(self, a, b, tol=1e-6):
        return Close(a, b, tol)


class SymWorld(Base):
    sym = True

    def __init__(self, ctx, loader):
        self.ctx = ctx
        self.T = loader
        self.math = mathshim
        self.rng = None

    # inputs --------------------------------------------------------------
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        ctx = self.ctx
        a = ctx.new_atom('in', (), name)
        ctx.inputs[name] = ('r', a, lo, hi)
        x = mk(ctx.atom_rat(a))
        p = next(iter(x.r.f))
        if lo is not None:
            l = z3.RealVal(str(Fraction(lo)))
            ctx.define(a.z > l if lo_open else a.z >= l)
            if lo > 0 or (lo == 0 and lo_open):
                ctx.signs[p] = 1
        if hi is not None:
            h = z3.RealVal(str(Fraction(hi)))
            ctx.define(a.z < h if hi_open else a.z <= h)
            if hi < 0 or (hi == 0 and hi_open):
                ctx.signs[p] = -1
        return x

    def choice(self, name, options):
        options = list(options)
        i = self.ctx.choice(len(options), name)
        self.ctx.inputs[name] = ('c', i)
        return options[i]

    def bool(self, name):
        return self.choice(name, [False, True])

    def string(self, name, length, alphabet):
        cs = []
        for i in range(length):
            c = CharVar('%s[%d]' % (name, i), alphabet)
            self.ctx.chars.append((c, sorted(frozenset(alphabet))))
            cs.append(c)
        s = SymStr(cs)
        self.ctx.inputs[name] = ('s', s)
        return s

    def token(self, x):
        """number-like text that float() turns back into x"""
        t = '%d.%d' % (len(self.ctx.tokens) + 8100, 625)
        self.ctx.tokens[t] = x
        return t

    # logic ---------------------------------------------------------------
    def assume(self, c):
        self.ctx.assume(self._cond(c))

    def require_unreachable(self, label):
        raise Found(label, None)

    def _cond(self, c):
        if isinstance(c, Close):
            a, b = c.a, c.b
            if core.is_special(a) or core.is_special(b):
                return a == b
            d = a - b
            if type(d) is not SymReal:
                return abs(d) <= c.tol
            if d.r.is_const():
                return abs(d.r.c) <= c.tol
            return b_and(d <= c.tol, d >= -c.tol)
        return c

    def check(self, label, c):
        self.ctx.check(label, self._cond(c))

    def all(self, *cs):
        return b_and(*[self._cond(c) for c in cs])

    def any(self, *cs):
        return b_or(*[self._cond(c) for c in cs])

    def not_(self, c):
        return b_not(self._cond(c))

    def implies(self, a, b):
        return b_or(b_not(self._cond(a)), self._cond(b))

    def iff(self, a, b):
        a, b = self._cond(a), self._cond(b)
        return b_or(b_and(a, b), b_and(b_not(a), b_not(b)))

    def ite(self, c, a, b):
        """value-level if by forking"""
        return a if bool(self._cond(c)) else b

    def possible(self, c):
        c = self._cond(c)
        if not isinstance(c, SymBool):
            return bool(c)
        return self.ctx.oracle(
            lambda: self.ctx.query(c.z())) != 'unsat'

    def observe(self, label, v):
        self.ctx.observed.append((label, v))

    def min(self, *xs):
        return mathshim.s_min(*xs)

    def max(self, *xs):
        return mathshim.s_max(*xs)


class ConWorld(Base):
    sym = False

    def __init__(self, values, loader, slack=0.5, rng=None):
        self.values = values
        self.T = loader
        self.math = math
        self.slack = slack
        self.observed = []
        self.rng = rng
        self.used = {}
        self.nchecks = 0

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        if name in self.values:
            v = float(self.values[name])
        elif self.rng is not None:
            a = lo if lo is not None else -100.0
            b = hi if hi is not None else max(a + 100.0, 100.0)
            v = self.rng.uniform(a, b)
        else:
            v = float(lo if lo is not None else 0.0)
        self.used[name] = v
        if lo is not None and (v < lo or (lo_open and v <= lo)):
            raise Discard(name)
        if hi is not None and (v > hi or (hi_open and v >= hi)):
            raise Discard(name)
        return v

    def choice(self, name, options):
        options = list(options)
        if name in self.values:
            i = int(self.values[name])
        elif self.rng is not None:
            i = self.rng.randrange(len(options))
        else:
            i = 0
        self.used[name] = i
        if i >= len(options):
            raise Discard(name)
        return options[i]

    def bool(self, name):
        return self.choice(name, [False, True])

    def string(self, name, length, alphabet):
        v = self.values.get(name)
        if v is None:
            v = ''.join(self.rng.choice(sorted(set(alphabet)))
                        for _ in range(length))
        self.used[name] = v
        return v

    def token(self, x):
        return repr(float(x))

    def _cond(self, c):
        if isinstance(c, Close):
            a, b = c.a, c.b
            if a == b:
                return True
            return bool(abs(a - b) <= c.tol * self.slack)
        return bool(c)

    def assume(self, c):
        if not self._cond(c):
            raise Discard('assume')

    def check(self, label, c):
        self.nchecks += 1
        if not self._cond(c):
            d = ''
            if isinstance(c, Close):
                d = '%r vs %r' % (c.a, c.b)
            raise Failed(label, d)

    def all(self, *cs):
        return all(self._cond(c) for c in cs)

    def any(self, *cs):
        return any(self._cond(c) for c in cs)

    def not_(self, c):
        return not self._cond(c)

    def implies(self, a, b):
        return (not self._cond(a)) or self._cond(b)

    def iff(self, a, b):
        return self._cond(a) == self._cond(b)

    def ite(self, c, a, b):
        return a if self._cond(c) else b

    def possible(self, c):
        return self._cond(c)

    def observe(self, label, v):
        self.observed.append((label, v))

    def min(self, *xs):
        return min(*xs)

    def max(self, *xs):
        return max(*xs)
