"""Symbolic values, path exploration and proof obligations.

Real code is executed with SymReal/SymStr proxies.  Every time the code
branches on a symbolic condition the engine asks the SMT solver which sides
are feasible and explores all of them (depth-first, by re-execution).
"""
import sys
import time
import math
import zlib
from fractions import Fraction

if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3

from .alg import Poly, Rat, rat_add, rat_from_poly, F0, F1


class Steer(BaseException):
    """Base of the engine's own control flow (never caught by code under
    test, which only catches Exception)."""


class PathEnd(Steer):
    """This path is infeasible or was assumed away."""


class Hang(Steer):
    """no progress in straight-line code"""


class Budget(Steer):
    """Out of time/paths for this case."""


class Unsupported(Steer):
    """The code did something the engine cannot encode."""


class Found(Steer):
    """A proof obligation is refuted on this path."""
    def __init__(self, label, cond, kind='check', exc=None):
        self.label, self.cond, self.kind, self.exc = label, cond, kind, exc


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.obligations = 0
        self.trivial = 0
        self.assume_ended = 0
        self.concretized = 0
        self.validated = 0
        self.val_skipped = 0
        self.val_mismatch = 0

    def add(self, o):
        for k, v in o.__dict__.items():
            setattr(self, k, getattr(self, k) + v)


CTX = None      # the active path context


# --------------------------------------------------------------------------
# boolean trees

class SymBool(object):
    """Node: ('cmp', op, Rat) with op in '<','<=','==' against 0,
    ('and',[..]), ('or',[..]), ('not',x)."""
    __slots__ = ('node', '_z')
    __array_ufunc__ = None

    def __init__(self, node):
        self.node = node
        self._z = None

    def z(self):
        if self._z is None:
            self._z = _bool_z3(self.node)
        return self._z

    def __bool__(self):
        return CTX.decide(self)

    def __and__(self, o):
        return b_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __xor__(self, o):
        return b_not(self.__eq__(o))
    __rxor__ = __xor__

    # a truth value used as a number is decided
    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(self) + o
    __radd__ = __add__

    def __sub__(self, o):
        return int(self) - o

    def __rsub__(self, o):
        return o - int(self)

    def __mul__(self, o):
        return int(self) * o
    __rmul__ = __mul__

    def __neg__(self):
        return -int(self)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            a, b = self, o
            return b_or(b_and(a, b), b_and(b_not(a), b_not(b)))
        if isinstance(o, (int, float)):
            return self if o == 1 else b_not(self) if o == 0 else False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def __hash__(self):
        return id(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def evalf(self, env, slack=0.0):
        return _bool_eval(self.node, env)

    def __repr__(self):
        return '<symbool>'


def b_not(a):
    if isinstance(a, SymBool):
        k = a.node
        if k[0] == 'not':
            return k[1] if isinstance(k[1], SymBool) else not k[1]
        return SymBool(('not', a))
    return not a


def b_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SymBool(('and', out))


def b_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x)
        elif x:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SymBool(('or', out))


def b_implies(a, b):
    return b_or(b_not(a), b)


def _bool_z3(n):
    k = n[0]
    if k == 'cmp':
        return CTX.cmp_z3(n[1], n[2])
    if k == 'and':
        return z3.And([x.z() for x in n[1]])
    if k == 'or':
        return z3.Or([x.z() for x in n[1]])
    if k == 'not':
        return z3.Not(n[1].z())
    raise AssertionError(k)


def _bool_eval(n, env):
    k = n[0]
    if k == 'cmp':
        v = n[2].evalf(env)
        return v < 0 if n[1] == '<' else v <= 0 if n[1] == '<=' else v == 0
    if k == 'and':
        return all(_bool_eval(x.node, env) for x in n[1])
    if k == 'or':
        return any(_bool_eval(x.node, env) for x in n[1])
    if k == 'not':
        return not _bool_eval(n[1].node, env)


# --------------------------------------------------------------------------
# numbers

_NUM = (int, float, Fraction)


def to_rat(x):
    """Rat for a number, None for non-numbers, 'inf'/'nan' handled apart."""
    t = type(x)
    if t is SymReal:
        return x.r
    if t is bool or t is int or t is Fraction:
        return Rat.const(x)
    if t is float:
        if x != x or x in (math.inf, -math.inf):
            return None
        return Rat.const(x)
    if isinstance(x, (int, float, Fraction)):
        if isinstance(x, float) and (x != x or x in (math.inf, -math.inf)):
            return None
        return Rat.const(Fraction(x))
    if hasattr(x, 'item') and hasattr(x, 'dtype') and getattr(
            x, 'shape', None) == ():
        return to_rat(x.item())
    return None


def is_special(x):
    return isinstance(x, float) and (x != x or x in (math.inf, -math.inf))


def mk(r):
    return SymReal(r)


CAPTURING = False
PRINTED = None      # while output is captured: the numbers printed


def printed(x):
    """the text of a number in captured output"""
    PRINTED.append(x)
    return '\u27e8%d\u27e9' % (len(PRINTED) - 1)


_PICKLED = []


def _unpickle(i):
    return _PICKLED[i]


class SymReal(object):
    __slots__ = ('r',)
    __array_ufunc__ = None
    __array_priority__ = 1e9

    def __init__(self, r):
        self.r = r

    # arithmetic ---------------------------------------------------------
    def __add__(self, o):
        b = to_rat(o)
        if b is None:
            return o if is_special(o) else NotImplemented
        return mk(CTX.add(self.r, b))
    __radd__ = __add__

    def __neg__(self):
        return mk(self.r.neg())

    def __pos__(self):
        return self

    def __sub__(self, o):
        b = to_rat(o)
        if b is None:
            return -o if is_special(o) else NotImplemented
        return mk(CTX.add(self.r, b.neg()))

    def __rsub__(self, o):
        b = to_rat(o)
        if b is None:
            return o if is_special(o) else NotImplemented
        return mk(CTX.add(b, self.r.neg()))

    def __mul__(self, o):
        b = to_rat(o)
        if b is None:
            if is_special(o):
                if o != o:
                    return o
                if bool(self > 0):
                    return o
                if bool(self < 0):
                    return -o
                return math.nan
            return NotImplemented
        return mk(CTX.mul(self.r, b))
    __rmul__ = __mul__

    def __truediv__(self, o):
        b = to_rat(o)
        if b is None:
            if is_special(o):
                return o if o != o else 0.0
            return NotImplemented
        return mk(CTX.div(self.r, b))

    def __rtruediv__(self, o):
        b = to_rat(o)
        if b is None:
            if is_special(o):
                return o * (1 if bool(self > 0) else -1)
            return NotImplemented
        return mk(CTX.div(b, self.r))

    def __pow__(self, o):
        from . import mathshim
        if is_special(o):
            if o != o:
                return o
            if bool(abs(self) == 1):
                return 1.0
            return math.inf if bool(abs(self) > 1) == (o > 0) else 0.0
        if isinstance(o, int) or (isinstance(o, float) and o == int(o)):
            n = int(o)
            if n < 0 and bool(self == 0):
                raise ZeroDivisionError("0.0 cannot be raised to a negative "
                                        "power")
            return mk(CTX.red(self.r.powi(n)))
        return mathshim.pow(self, o, False)

    def __rpow__(self, o):
        from . import mathshim
        return mathshim.pow(o, self, False)

    def __floordiv__(self, o):
        return (self / o).__floor__()

    def __rfloordiv__(self, o):
        return (o / self).__floor__()

    def __mod__(self, o):
        b = to_rat(o)
        if b is None:
            return NotImplemented
        k = (self / o).__floor__()
        return self - k * o

    def __rmod__(self, o):
        k = (o / self).__floor__()
        return o - k * self

    def __divmod__(self, o):
        k = (self / o).__floor__()
        return k, self - k * o

    def __abs__(self):
        return CTX.absval(self)

    def __floor__(self):
        return CTX.floor(self)

    def __ceil__(self):
        return -CTX.floor(-self)

    def __trunc__(self):
        if bool(self >= 0):
            return CTX.floor(self)
        return -CTX.floor(-self)

    def __round__(self, n=None):
        if n is None:
            return CTX.floor(self + Fraction(1, 2))
        s = 10 ** n
        k = CTX.floor(self * s + Fraction(1, 2))
        return mk(Rat.const(Fraction(k) / Fraction(s)))

    def __int__(self):
        return self.__trunc__()

    def __float__(self):
        if self.r.is_const():
            return float(self.r.c)
        return float(CTX.concretize(self))

    def __format__(self, spec):
        if PRINTED is not None:
            return printed(self)
        return '<sym>'

    def __str__(self):
        if self.r.is_const():
            return repr(float(self.r.c))
        if PRINTED is not None:
            return printed(self)
        return '<sym>'
    __repr__ = __str__

    def is_integer(self):
        return bool(self == self.__floor__())

    # comparisons --------------------------------------------------------
    def _cmp(self, o, op, swap):
        b = to_rat(o)
        if b is None:
            if is_special(o):
                if o != o:
                    return False
                if op == '==':
                    return False
                return (o > 0) != swap
            return NotImplemented
        a, b = (b, self.r) if swap else (self.r, b)
        return mk_cmp(op, CTX.add(a, b.neg()))

    def __lt__(self, o):
        return self._cmp(o, '<', False)

    def __le__(self, o):
        return self._cmp(o, '<=', False)

    def __gt__(self, o):
        return self._cmp(o, '<', True)

    def __ge__(self, o):
        return self._cmp(o, '<=', True)

    def __eq__(self, o):
        if o is self:
            return True
        r = self._cmp(o, '==', False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        # values that may be equal must hash alike
        return 0

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce_ex__(self, protocol):
        # a pickled number comes back as the same number
        i = len(_PICKLED)
        _PICKLED.append(self)
        return _unpickle, (i,)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def item(self):
        return self


def mk_cmp(op, r):
    if r.is_const():
        c = r.c
        return c < 0 if op == '<' else c <= 0 if op == '<=' else c == 0
    return SymBool(('cmp', op, r))


# --------------------------------------------------------------------------
# path context

_REALS = {}


def _real(name):
    z = _REALS.get(name)
    if z is None:
        z = _REALS[name] = z3.Real(name)
    return z


class Atom(object):
    __slots__ = ('n', 'kind', 'args', 'z', 'sq', 'name')

    def __init__(self, n, kind, args, name):
        self.n, self.kind, self.args, self.name = n, kind, args, name
        self.sq = None
        self.z = _real(name)


class Ctx(object):
    """One path."""

    def __init__(self, explorer, prefix, oreplay=()):
        self.ex = explorer
        self.olog = list(oreplay)     # answers already settled on the prefix
        self.oi = 0
        self.in_oracle = False
        self.opos = []
        self.stats = explorer.stats
        self.prefix = prefix          # list of decisions to replay
        self.trace = []               # [(kind, value, alternatives)]
        self.atoms = []
        self.memo = {}
        self.tokens = {}              # text standing for a symbolic number
        self.inputs = {}              # name -> atom / value
        self.lnpairs = []             # (value Rat, log Rat) known pairs
        self.lncomps, self.lnexps = [], []
        self.asins = []
        self.sincos = {}
        self.pc = []                  # SymBool conditions decided
        self.charlog = []
        self.chars = []
        self.zcache = {}
        self.signs = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', explorer.query_ms)
        self.model = None             # z3 model of the current pc, if known
        self.zpc = []                 # all asserted z3 formulas
        self.observed = []
        self.checks = 0
        self.checks_nontrivial = 0
        self.underapprox = False
        self.maybe_infeasible = False
        self.has_sq = False

    def oracle(self, compute):
        """Answer of a side query; answers on the replayed prefix are
        taken from the run that settled them."""
        if self.in_oracle:
            return compute()      # part of the answer being computed
        if self.oi < len(self.olog):
            v = self.olog[self.oi]
        else:
            self.in_oracle = True
            try:
                v = compute()
            finally:
                self.in_oracle = False
            self.olog.append(v)
        self.oi += 1
        return v

    def note(self, entry):
        self.trace.append(entry)
        self.opos.append(self.oi)
        sp = self.ex.split
        if sp and len(self.trace) == sp[0]:
            h = zlib.crc32(repr([(e[0], e[1]) for e in self.trace]).encode())
            if h % sp[1] != sp[2]:
                raise PathEnd('another worker takes this subtree')

    # ---- atoms ----------------------------------------------------------
    def new_atom(self, kind, args, name=None):
        n = len(self.atoms)
        a = Atom(n, kind, args, name or '%s!%d' % (kind, n))
        self.atoms.append(a)
        return a

    def atom_rat(self, a):
        return Rat.var(a.n)

    def memo_atom(self, kind, *rats):
        key = (kind,) + rats
        return self.memo.get(key), key

    # ---- algebra --------------------------------------------------------
    def red_poly(self, p):
        for _ in range(20):
            hit = None
            for m in p.t:
                for v, e in m:
                    if e >= 2 and self.atoms[v].sq is not None \
                            and self.atoms[v].sq.is_poly():
                        hit = v
                        break
                if hit is not None:
                    break
            if hit is None:
                return p
            sq, _ = self.atoms[hit].sq.num_den()
            out = Poly({})
            for m, c in p.t.items():
                d = dict(m)
                e = d.pop(hit, 0)
                if e % 2:
                    d[hit] = 1
                q = Poly({tuple(sorted(d.items())): c})
                for _k in range(e // 2):
                    q = q.mul(sq)
                out = out.add(q)
            p = out
        return p

    def red(self, r):
        """Replace squares of sqrt atoms inside the factor map."""
        for p, e in r.f.items():
            if (e >= 2 or e <= -2) and len(p.t) == 1:
                m = next(iter(p.t))
                if len(m) == 1 and m[0][1] == 1:
                    a = self.atoms[m[0][0]]
                    if a.sq is not None:
                        f = dict(r.f)
                        h = abs(e) // 2
                        s = 1 if e > 0 else -1
                        rest = e - s * 2 * h
                        if rest:
                            f[p] = rest
                        else:
                            del f[p]
                        return self.red(Rat(r.c, f).mul(a.sq.powi(s * h)))
        return r

    def add(self, a, b):
        if self.has_sq:
            return self.red(rat_add(a, b, self.red_poly))
        m = self.ex.addmemo
        k = (a, b)
        r = m.get(k)
        if r is None:
            r = m[k] = rat_add(a, b, self.red_poly)
        return r

    def mul(self, a, b):
        return self.red(a.mul(b))

    def div(self, a, b):
        if b.is_const():
            if not b.c:
                raise ZeroDivisionError("float division by zero")
        else:
            if self.decide(mk_cmp('==', b)):
                raise ZeroDivisionError("float division by zero")
        return self.red(a.mul(b.inv()))

    # ---- z3 translation -------------------------------------------------
    def poly_z3(self, p):
        z = self.zcache.get(p)
        if z is not None:
            return z
        vs = sorted({v for m in p.t for v, e in m})
        gk = (p, tuple(self.atoms[v].name for v in vs))
        z = self.ex.zpolys.get(gk)
        if z is not None:
            self.zcache[p] = z
        if z is None:
            terms = []
            for m, c in p.t.items():
                fs = []
                if c != 1 or not m:
                    fs.append(z3.RealVal(str(c)))
                for v, e in m:
                    fs += [self.atoms[v].z] * e
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                terms.append(t)
            z = terms[0] if terms else z3.RealVal(0)
            for t in terms[1:]:
                z = z + t
            self.zcache[p] = z
            self.ex.zpolys[gk] = z
        return z

    def rat_z3(self, r):
        z = z3.RealVal(str(r.c))
        for p, e in r.f.items():
            q = self.poly_z3(p)
            for _ in range(abs(e)):
                z = z * q if e > 0 else z / q
        return z

    def factor_sign(self, p, ask=True):
        """+1/-1 when the path condition forces the sign of p, else 0."""
        s = self.signs.get(p)
        if s is not None:
            return s
        if not ask:
            return 0
        if self.signs.get(('no', p)) == len(self.zpc):
            return 0
        v = self.oracle(lambda: self._ask_sign(p))
        if self.in_oracle:
            pass                  # replays do not come here
        elif v:
            self.signs[p] = v
        else:
            self.signs[('no', p)] = len(self.zpc)
        return v

    def _ask_sign(self, p):
        z = self.poly_z3(p)
        m = self.get_model()
        v = None
        if m is not None:
            try:
                v = m.eval(z, model_completion=True)
                v = (1 if z3.is_true(z3.simplify(v > 0)) else
                     -1 if z3.is_true(z3.simplify(v < 0)) else 0)
            except Exception:
                v = None
        if v != -1 and self.query(z <= 0) == 'unsat':
            return 1
        if v != 1 and self.query(z >= 0) == 'unsat':
            return -1
        return 0

    def cmp_z3(self, op, r):
        """z3 formula for r op 0, r = c*prod f^e, with den factors != 0."""
        s = 1 if r.c > 0 else -1
        fs, even = [], []
        for p, e in r.f.items():
            if e % 2 == 0:
                if e > 0:
                    even.append(p)
                continue
            k = self.factor_sign(p, ask=(len(r.f) > 1 or e < 0))
            if k:
                s *= k
            else:
                fs.append((p, e))
        gk = (op, s, tuple(self.poly_z3(p).get_id() for p in even),
              tuple((self.poly_z3(p).get_id(), e) for p, e in fs))
        z = self.ex.zcmps.get(gk)
        if z is None:
            z = self.ex.zcmps[gk] = self._cmp_z3(op, s, fs, even)
        return z

    def _cmp_z3(self, op, s, fs, even):
        zs = [self.poly_z3(p) for p, _ in fs]
        zero = z3.Or([self.poly_z3(p) == 0 for p, e in fs if e > 0] +
                     [self.poly_z3(p) == 0 for p in even])
        if op == '==':
            return zero
        neg = self._signprod(zs, s, -1)
        if op == '<':
            if even:
                return z3.And([neg] + [self.poly_z3(p) != 0 for p in even])
            return neg
        if not fs:
            # only even factors / constant sign
            if s < 0:
                return z3.BoolVal(True)
            return zero
        if len(fs) == 1:
            p, e = fs[0]
            if e > 0:
                base = zs[0] <= 0 if s > 0 else zs[0] >= 0
            else:
                base = zs[0] < 0 if s > 0 else zs[0] > 0
            if even:
                return z3.Or(base, zero)
            return base
        return z3.Or(neg, zero)

    def _signprod(self, zs, s, want):
        """formula: s*prod(zs) has strict sign `want`."""
        if not zs:
            return z3.BoolVal(s == want)
        if len(zs) == 1:
            return zs[0] > 0 if s == want else zs[0] < 0
        a, rest = zs[0], zs[1:]
        return z3.Or(z3.And(a > 0, self._signprod(rest, s, want)),
                     z3.And(a < 0, self._signprod(rest, -s, want)))

    # ---- solver ---------------------------------------------------------
    def assert_z(self, z):
        self.solver.add(z)
        self.zpc.append(z)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(z, model_completion=True)):
                    self.model = None
            except Exception:
                self.model = None

    def query(self, *zs, **kw):
        """'sat' / 'unsat' / 'unknown' for pc and zs; keeps the model."""
        self.ex.check_time()
        t = time.time()
        self.stats.queries += 1
        self.qmodel = None
        res = None
        if self.ex.nl and not kw.get('lin'):
            s = z3.SolverFor('QF_NRA')
            s.set('timeout', kw.get('ms', self.ex.query_ms))
            s.add(*self.zpc)
            s.add(*zs)
            res = s.check()
            if res == z3.sat:
                self.qmodel = s.model()
        else:
            r0 = self.solver.check(*[self._lit(z) for z in zs])
            res = r0
            if r0 == z3.sat:
                self.qmodel = self.solver.model()
        if res == z3.unknown:
            s = (z3.Solver() if self.ex.nl else
                 z3.Tactic('qfnra-nlsat').solver())
            s.set('timeout', kw.get('ms', self.ex.query_ms))
            s.add(*self.zpc)
            s.add(*zs)
            try:
                res = s.check()
            except z3.Z3Exception:
                res = z3.unknown
            if res == z3.sat:
                self.qmodel = s.model()
        self.stats.solver_s += time.time() - t
        return str(res)

    def _lit(self, z):
        # assumptions must be literals: name the formula
        k = z.get_id()
        key = ('lit', k)
        b = self.memo.get(key)
        if b is None:
            v = z3.Bool('lit!%d' % len(self.memo))
            self.solver.add(z3.Implies(v, z))
            self.memo[key] = (v, z)
            return v
        return b[0]

    def get_model(self):
        if self.model is None:
            if self.query() == 'sat':
                self.model = self.qmodel
        return self.model

    def truth_in_model(self, z):
        m = self.model
        if m is None:
            return None
        try:
            v = m.eval(z, model_completion=True)
            v = z3.simplify(v)
        except Exception:
            return None
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    # ---- branching ------------------------------------------------------
    def push_cond(self, b, value):
        c = b if value else b_not(b)
        self.pc.append(c)
        self.assert_z(c.z())
        n = b.node
        while n[0] == 'not':
            value = not value
            n = n[1].node
        if n[0] == 'cmp':
            r, op = n[2], n[1]
            if len(r.f) == 1:
                p, e = next(iter(r.f.items()))
                if e % 2:
                    s = 1 if r.c > 0 else -1
                    if op == '<' and value:
                        self.signs[p] = -s
                    elif op == '<=' and not value:
                        self.signs[p] = s

    def decide(self, b):
        if not isinstance(b, SymBool):
            return bool(b)
        key = ('dec', _bool_key(b.node))
        if key in self.memo:
            return self.memo[key]
        i = len(self.trace)
        if i < len(self.prefix):
            kind, v, alt = self.prefix[i]
            if kind != 'b':
                raise RuntimeError('non-deterministic re-execution')
            self.note(('b', v, alt))
            self.push_cond(b, v)
            self.memo[key] = v
            return v
        self.ex.check_time()
        self.stats.decisions += 1
        z = b.z()
        nz = z3.Not(z)
        self.get_model()
        t = self.truth_in_model(z)
        mt = mf = None
        if t is True:
            ft, mt = 'sat', self.model
            ff = self.query(nz)
            mf = self.qmodel
        elif t is False:
            ff, mf = 'sat', self.model
            ft = self.query(z)
            mt = self.qmodel
        else:
            ft = self.query(z)
            mt = self.qmodel
            ff = 'sat' if ft == 'unsat' and self.model is not None \
                else self.query(nz)
            mf = self.qmodel if ff == 'sat' and ft != 'unsat' else self.model
        if ft == 'unknown' or ff == 'unknown':
            self.stats.unknown += 1
            self.maybe_infeasible = True
        if ft == 'unsat' and ff == 'unsat':
            raise PathEnd('infeasible')
        if ft == 'unsat':
            v, alt = False, False
        elif ff == 'unsat':
            v, alt = True, False
        else:
            v, alt = True, True
            if self.ex.flip(len(self.trace)):
                v = False
        self.note(('b', v, alt))
        self.model = mt if v else mf
        self.push_cond(b, v)
        self.memo[key] = v
        return v

    def choice(self, n, name='choice'):
        """Nondeterministic choice 0..n-1 (a symbolic integer resolved by
        forking, no solver needed)."""
        i = len(self.trace)
        if i < len(self.prefix):
            kind, v, alt = self.prefix[i]
            assert kind == 'c'
            self.note(('c', v, n - 1 - v))
            return v
        self.stats.decisions += 1
        self.note(('c', 0, n - 1))
        return 0

    def chardecide(self, ch, yes, no):
        i = len(self.trace)
        if i < len(self.prefix):
            kind, v, alt = self.prefix[i]
            if kind != 'b':
                raise RuntimeError('non-deterministic re-execution')
            self.note(('b', v, alt))
        else:
            self.stats.decisions += 1
            v = True
            self.note(('b', True, True))
        self.charlog.append((ch.name, sorted(yes if v else no)))
        return v

    def assume(self, b):
        if isinstance(b, SymBool):
            z = b.z()

            def ask():
                if self.truth_in_model(z) is not True:
                    r = self.query(z)
                    self.model = self.qmodel
                    return r
                return 'sat'
            if self.oracle(ask) == 'unsat':
                self.stats.assume_ended += 1
                raise PathEnd('assume')
            m = self.model
            self.push_cond(b, True)
            if self.model is None:
                self.model = m
        elif not b:
            self.stats.assume_ended += 1
            raise PathEnd('assume')

    def count_ob(self, trivial=0):
        sp = self.ex.split
        if sp and sp[2] and len(self.trace) < sp[0]:
            return
        self.stats.obligations += 1
        self.stats.trivial += trivial

    def check(self, label, b, robust=None):
        """Proof obligation: b holds on every input of this path."""
        self.checks += 1
        if not isinstance(b, SymBool):
            if not b:
                self.stats.obligations += 1
                raise Found(label, None)
            if self.oi >= len(self.olog):
                self.count_ob(1)
            return
        nb = b_not(b)
        self.checks_nontrivial += 1

        def ask():
            self.count_ob()
            r = self.query(nb.z(), ms=self.ex.ob_ms)
            if r == 'unknown':
                self.ex.note_inconclusive(label)
            return r
        r = self.oracle(ask)
        if r in ('unsat', 'unknown'):
            return
        raise Found(label, nb)

    # ---- derived numbers -------------------------------------------------
    def sign(self, x):
        """Known sign of a Rat: 1, -1, 0 (zero) or None."""
        if x.is_const():
            return (x.c > 0) - (x.c < 0)
        s = 1 if x.c > 0 else -1
        for p, e in x.f.items():
            if e % 2 == 0:
                k = self.factor_sign(p)
                if not k:
                    return None
                continue
            k = self.factor_sign(p)
            if not k:
                return None
            s *= k
        return s

    def absval(self, x):
        r = x.r
        if r.is_const():
            return mk(Rat.const(abs(r.c)))
        s = self.sign(r)
        if s is not None:
            return x if s >= 0 else -x
        if r.c < 0:
            r = r.neg()
        a, key = self.memo_atom('abs', r)
        if a is None:
            at = self.new_atom('abs', (r,))
            a = mk(self.atom_rat(at))
            self.memo[key] = a
            pos, neg = SymBool(('cmp', '<=', r.neg())), None
            e1 = mk_cmp('==', self.add(a.r, r.neg()))
            e2 = mk_cmp('==', self.add(a.r, r))
            self.define(z3.And(at.z >= 0,
                               z3.If(pos.z(), e1.z(), e2.z())))
        return a

    def define(self, z):
        """Assert the definition of a fresh atom (conservative extension)."""
        self.solver.add(z)
        self.zpc.append(z)
        self.model = None

    def minmax(self, xs, ismin):
        xs = list(xs)
        best = xs[0]
        for x in xs[1:]:
            best = self._minmax2(best, x, ismin)
        return best

    def _minmax2(self, a, b, ismin):
        ra, rb = to_rat(a), to_rat(b)
        if ra is None or rb is None:
            if is_special(a) or is_special(b):
                c = b < a if ismin else b > a
                return b if c else a
            c = (b < a) if ismin else (b > a)
            return b if c else a
        d = self.add(ra, rb.neg())
        if d.is_const():
            if ismin:
                return b if d.c > 0 else a
            return b if d.c < 0 else a
        le = mk_cmp('<=', d)              # a <= b
        t = le.z()

        def ask():
            self.get_model()
            v = self.truth_in_model(t)
            if v is not False and self.query(z3.Not(t)) == 'unsat':
                return 1
            if v is not True and self.query(t) == 'unsat':
                return 2
            return 0
        w = self.oracle(ask)
        if w == 1:
            return a if ismin else b
        if w == 2:
            return b if ismin else a
        # put in canonical order so min(a,b) and min(b,a) are one atom
        key = ('min' if ismin else 'max', frozenset((ra, rb)))
        m = self.memo.get(key)
        if m is None:
            at = self.new_atom('min' if ismin else 'max', (ra, rb))
            m = mk(self.atom_rat(at))
            self.memo[key] = m
            ea = mk_cmp('==', self.add(m.r, ra.neg()))
            eb = mk_cmp('==', self.add(m.r, rb.neg()))
            if ismin:
                self.define(z3.If(t, ea.z(), eb.z()))
            else:
                self.define(z3.If(t, eb.z(), ea.z()))
        return m

    def floor(self, x):
        """Concrete integer floor(x), by forking over feasible values."""
        if x.r.is_const():
            return math.floor(x.r.c)
        key = ('floor', x.r)
        if key in self.memo:
            return self.memo[key]
        z = None
        for _ in range(64):
            i = len(self.trace)
            if i < len(self.prefix):
                kind, v, alt = self.prefix[i]
                assert kind == 'f', kind
                k, yes = v
                self.note(('f', v, alt))
                c = b_and(x >= k, x < k + 1)
                self.push_cond(c, yes)
                if yes:
                    self.memo[key] = k
                    return k
                continue
            self.stats.decisions += 1
            m = self.get_model()
            if m is None:
                if self.query() == 'unsat':
                    raise PathEnd('infeasible')
                raise Unsupported('floor: no model')
            k = math.floor(self.model_value(m, x.r))
            c = b_and(x >= k, x < k + 1)
            if not isinstance(c, SymBool):
                raise Unsupported('floor')
            ff = self.query(z3.Not(c.z()))
            self.note(('f', (k, True), ff != 'unsat'))
            self.push_cond(c, True)
            self.memo[key] = k
            return k
        raise Unsupported('floor: too many values')

    def model_value(self, m, r):
        v = m.eval(self.rat_z3(r), model_completion=True)
        return z3_fraction(v)

    def concretize(self, x):
        """Escape hatch: fix a symbolic value (under-approximation, counted)."""
        self.stats.concretized += 1
        self.underapprox = True
        m = self.get_model()
        if m is None:
            raise Unsupported('concretize: no model')
        v = self.model_value(m, x.r)
        # prefer a float-representable value
        self.assume(mk_cmp('==', self.add(x.r, Rat.const(v).neg())))
        return v

    # ---- numeric evaluation with the true functions ----------------------
    def numeric_env(self, values):
        cache = {}

        def env(n):
            if n in cache:
                return cache[n]
            a = self.atoms[n]
            if a.kind == 'in':
                v = values[a.name]
            else:
                args = [x.evalf(env) for x in a.args]
                v = NUM[a.kind](*args)
            cache[n] = float(v)
            return cache[n]
        return env


def _c1(x):
    return max(-1.0, min(1.0, x))


NUM = {
    'abs': abs, 'min': min, 'max': max,
    'sqrt': lambda x: math.sqrt(max(x, 0.0)),
    'ln': math.log, 'exp': math.exp,
    'asin': lambda x: math.asin(_c1(x)),
    'sin': math.sin, 'cos': math.cos,
}


def _bool_key(n):
    k = n[0]
    if k == 'cmp':
        return (k, n[1], n[2])
    if k == 'not':
        return (k, _bool_key(n[1].node))
    return (k, tuple(_bool_key(x.node) for x in n[1]))


def z3_fraction(v):
    v = z3.simplify(v)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        w = v.approx(30)
        return Fraction(w.numerator_as_long(), w.denominator_as_long())
    raise Unsupported('model value %s' % v)


# --------------------------------------------------------------------------
# exploration

class Explorer(object):
    """Explore every path of fn(world) up to the budgets."""

    def __init__(self, fn, nl=False, query_ms=4000, ob_ms=20000,
                 max_paths=20000, deadline=None, replay=None, seed=1,
                 validate=25, stop_on_found=True):
        self.fn = fn
        self.nl = nl
        self.query_ms, self.ob_ms = query_ms, ob_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = Stats()
        self.zpolys, self.zcmps, self.addmemo = {}, {}, {}
        self.split = None
        self.inconclusive = []
        self.unsupported = []
        self.found = []
        self.complete = False
        self.labels = {}
        self.samples = []
        self.functions = set()
        self.replay = replay
        self.seed = seed
        self.validate = validate
        self.witness_checks = 0

    def flip(self, depth):
        return False

    def check_time(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time')

    def note_inconclusive(self, label):
        self.inconclusive.append(label)

    def run(self, handler):
        """handler(ctx, outcome) is called after every path."""
        global CTX
        prefix, oreplay = [], ()
        try:
            while True:
                if self.stats.paths >= self.max_paths:
                    raise Budget('paths')
                ctx = Ctx(self, prefix, oreplay)
                CTX = ctx
                outcome = None
                try:
                    self.fn(ctx)
                    outcome = ('ok', None)
                except PathEnd as e:
                    outcome = ('end', e)
                except Found as e:
                    outcome = ('found', e)
                except Unsupported as e:
                    outcome = ('unsupported', e)
                except RecursionError as e:
                    outcome = ('unsupported', e)
                except z3.Z3Exception as e:
                    outcome = ('unsupported', e)
                except Hang as e:
                    outcome = ('hang', e)
                except Budget:
                    # does the code stop on these inputs at all?
                    if handler(ctx, ('hang', None)):
                        return
                    raise
                sp = self.split
                if sp and len(ctx.trace) < sp[0] and sp[2] and \
                        outcome[0] in ('ok', 'end'):
                    outcome = ('end', None)     # worker 0 reports it
                if outcome[0] != 'end':
                    self.stats.paths += 1
                stop = handler(ctx, outcome)
                if stop:
                    return
                # next prefix
                tr = ctx.trace
                while tr:
                    kind, v, alt = tr[-1]
                    if kind == 'b' and alt:
                        prefix = tr[:-1] + [('b', not v, False)]
                        break
                    if kind == 'c' and alt:
                        prefix = tr[:-1] + [('c', v + 1, None)]
                        break
                    if kind == 'f' and alt:
                        prefix = tr[:-1] + [('f', (v[0], False), False)]
                        break
                    tr = tr[:-1]
                if tr:
                    oreplay = ctx.olog[:ctx.opos[len(tr) - 1]]
                else:
                    self.complete = True
                    return
        except Budget as e:
            self.inconclusive.append('budget: %s' % e)
        finally:
            CTX = None
