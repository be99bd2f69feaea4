"""math / numpy stand-ins.  On plain numbers they are the real functions; on
symbolic reals they introduce defined atoms with exact or sound axioms."""
import math as _m
import types
from fractions import Fraction

import z3
import numpy as _np

from . import core
from .core import (SymReal, SymBool, to_rat, mk, mk_cmp, Unsupported, b_not,
                   b_and, b_or, is_special)
from .alg import Rat, F0, F1

pi = _m.pi
e = _m.e
inf = _m.inf
nan = _m.nan
tau = _m.tau


def issym(*xs):
    return any(type(x) is SymReal for x in xs)


def _flt(x):
    return float(x) if isinstance(x, Fraction) else x


def _const(x):
    """A constant SymReal becomes a plain number."""
    if type(x) is SymReal and x.r.is_const():
        return float(x.r.c)
    return x


def _wrap(name):
    real = getattr(_m, name)

    def f(*a):
        if issym(*a):
            a = [_const(x) for x in a]
            if issym(*a):
                raise Unsupported('math.%s on a symbolic value' % name)
        return real(*a)
    f.__name__ = name
    return f


def _even_split(r):
    """r = q**2 * rest with q made of factors of known sign."""
    ctx = core.CTX
    qf, rest = {}, {}
    neg = 1
    for p, k in r.f.items():
        h = k // 2 if k > 0 else -((-k) // 2)
        if k % 2 and k < 0:
            # p**-k = p**(-k-1)... keep numerators only in the radicand
            h -= 1
        if h:
            s = ctx.factor_sign(p)
            if s:
                qf[p] = h
                if s < 0 and h % 2:
                    neg = -neg
                if k - 2 * h:
                    rest[p] = k - 2 * h
                continue
        rest[p] = k
    c = r.c
    q = Rat(F1, qf)
    return (q if neg > 0 else q.neg()), Rat(c, rest)


def sqrt(x):
    x = _const(x)
    if not issym(x):
        return _m.sqrt(x)
    ctx = core.CTX
    if ctx.decide(mk_cmp('<', x.r)):
        raise ValueError('math domain error')
    q, rest = _even_split(x.r)
    # rational square constants
    if rest.is_const():
        n, d = rest.c.numerator, rest.c.denominator
        a, b = _m.isqrt(n), _m.isqrt(d)
        if a * a == n and b * b == d:
            return mk(ctx.mul(q, Rat.const(Fraction(a, b))))
    a, key = ctx.memo_atom('sqrt', rest)
    if a is None:
        at = ctx.new_atom('sqrt', (rest,))
        a = mk(ctx.atom_rat(at))
        ctx.memo[key] = a
        den = Rat(F1, {p: k for p, k in rest.f.items() if k < 0})
        num = Rat(rest.c, {p: k for p, k in rest.f.items() if k > 0})
        ctx.define(z3.And(at.z >= 0,
                          at.z * at.z * ctx.rat_z3(den.inv())
                          == ctx.rat_z3(num)))
        at.sq = rest
        ctx.has_sq = True
    return mk(ctx.mul(q, a.r))


def _pair_axioms(v, l):
    """monotonicity between known (value, ln value) pairs and with (1, 0)."""
    ctx = core.CTX
    for v2, l2 in ctx.lnpairs + [(Rat.const(1), Rat.const(0))] + FAR:
        _pair(v, l, v2, l2)
    ctx.lnpairs.append((v, l))


FAR = [(Rat.const(Fraction(10) ** k), Rat.const(Fraction(k * _m.log(10))))
       for k in (40, -40)]


def _pair(v, l, v2, l2):
    ctx = core.CTX
    dv = ctx.add(v, v2.neg())
    dl = ctx.add(l, l2.neg())
    if dv.is_const() and dl.is_const():
        return
    lt_v, lt_l = _cz('<', dv), _cz('<', dl)
    eq_v, eq_l = _cz('==', dv), _cz('==', dl)
    ctx.define(z3.And(lt_v == lt_l, eq_v == eq_l))


def _cz(op, r):
    b = mk_cmp(op, r)
    return b.z() if isinstance(b, SymBool) else z3.BoolVal(bool(b))


def _ln_factor(p):
    """ln of a polynomial factor known to be positive."""
    ctx = core.CTX
    v = Rat(F1, {p: 1})
    a, key = ctx.memo_atom('ln', v)
    if a is None:
        at = ctx.new_atom('ln', (v,))
        a = ctx.atom_rat(at)
        ctx.memo[key] = a
        _pair_axioms(v, a)
    return a


def log(x, base=None):
    if base is not None:
        return log(x) / log(base)
    x = _const(x)
    if not issym(x):
        return _m.log(x)
    ctx = core.CTX
    if ctx.decide(mk_cmp('<=', x.r)):
        raise ValueError('math domain error')
    r = x.r
    got = ctx.memo.get(('lnof', r))
    if got is not None:
        return mk(got)
    c = r.c
    out = Rat.const(0)
    ok = True
    for p, k in r.f.items():
        s = ctx.factor_sign(p)
        if not s:
            ok = False
            break
    if not ok:
        a, key = ctx.memo_atom('ln', r)
        if a is None:
            at = ctx.new_atom('ln', (r,))
            a = ctx.atom_rat(at)
            ctx.memo[key] = a
            _pair_axioms(r, a)
        return mk(a)
    for p, k in r.f.items():
        if ctx.factor_sign(p) < 0:
            q = Rat(F1, {p: 1})
            key = ('negp', p)
            # -p as its own positive factor
            at = ctx.memo.get(key)
            if at is None:
                a = ctx.new_atom('ln', (q.neg(),))
                at = ctx.atom_rat(a)
                ctx.memo[key] = at
                _pair_axioms(q.neg(), at)
            if k % 2:
                c = -c
            lf = at
        else:
            lf = ctx.memo.get(('lnof', Rat(F1, {p: 1})))
            if lf is None:
                lf = _ln_factor(p)
        out = ctx.add(out, lf.mul(Rat.const(k)))
    if c != 1:
        out = ctx.add(out, _ln_const(c))
    if len(r.f) > 1 or c != 1:
        kk = ('lnpair', r)
        if kk not in ctx.memo:
            ctx.memo[kk] = True
            # sign axiom: ln r < 0 iff r < 1
            d = ctx.add(r, Rat.const(-1))
            ctx.define(_cz('<', d) == _cz('<', out))
            ctx.define(_cz('==', d) == _cz('==', out))
            for v2, l2 in ctx.lnexps:
                _pair(v2, l2, r, out)
                _pair(v2, l2, r.inv(), out.neg())
            ctx.lncomps.append((r, out))
    return mk(out)


def _ln_const(c):
    return Rat.const(Fraction(_m.log(c)))


def log1p(x):
    return log(1 + x)


def log10(x):
    return log(x) / _m.log(10)


def exp(x, check=True):
    x = _const(x)
    if not issym(x):
        return _m.exp(x)
    ctx = core.CTX
    r = x.r
    for v, l in ctx.lnpairs:
        if l == r:
            return mk(v)
    if check:
        if bool(x > 709):
            raise OverflowError('math range error')
        if bool(x < -745):
            return 0.0
    # split integer multiples of known logs out of a polynomial exponent
    v = ctx.memo.get(('exp', r))
    if v is not None:
        return mk(v)
    at = ctx.new_atom('exp', (r,))
    a = ctx.atom_rat(at)
    ctx.memo[('exp', r)] = a
    ctx.memo[('lnof', a)] = r
    ctx.define(at.z > 0)
    ctx.signs[next(iter(a.f))] = 1
    _pair_axioms(a, r)
    for v2, l2 in ctx.lncomps:
        _pair(a, r, v2, l2)
        _pair(a, r, v2.inv(), l2.neg())
    ctx.lnexps.append((a, r))
    return mk(a)


def pow(a, b, strict=True):
    a, b = _const(a), _const(b)
    if not issym(a, b):
        return _m.pow(a, b)
    if not issym(b) and float(b) == int(b):
        return a ** int(b)
    if not issym(b) and float(b) == 0.5:
        return sqrt(a)
    if bool(a == 0):
        if bool(b > 0):
            return 0.0
        if bool(b == 0):
            return 1.0
        raise ValueError('math domain error')
    x = b * log(a)
    # the range of double precision numbers
    if bool(x > 709):
        if strict:
            raise OverflowError('math range error')
        return _m.inf
    if bool(x < -745):
        return 0.0
    return exp(x, False)


def _neg_lead(r):
    return r.c < 0


def asin(x):
    x = _const(x)
    if not issym(x):
        return _m.asin(x)
    ctx = core.CTX
    if bool(x > 1) or bool(x < -1):
        raise ValueError('math domain error')
    r = x.r
    if r.c < 0:
        return -_asin_atom(mk(r.neg()))
    return _asin_atom(x)


def _asin_atom(x):
    ctx = core.CTX
    r = x.r
    a, key = ctx.memo_atom('asin', r)
    if a is not None:
        return mk(a)
    at = ctx.new_atom('asin', (r,))
    a = ctx.atom_rat(at)
    ctx.memo[key] = a
    hp = z3.RealVal(str(Fraction(pi) / 2))
    one = Rat.const(1)
    ctx.define(z3.And(
        at.z <= hp, at.z >= -hp,
        _cz('<', r) == (at.z < 0), _cz('==', r) == (at.z == 0),
        _cz('==', ctx.add(r, one.neg())) == (at.z == hp),
        _cz('==', ctx.add(r, one)) == (at.z == -hp)))
    for r2, a2 in ctx.asins:
        for sg in (1, -1):
            o_r, o_a = (r2, a2) if sg > 0 else (r2.neg(), a2.neg())
            d = ctx.add(r, o_r.neg())
            da = ctx.add(a, o_a.neg())
            ctx.define(z3.And(_cz('<', d) == _cz('<', da),
                              _cz('==', d) == _cz('==', da)))
    ctx.asins.append((r, a))
    return mk(a)


def acos(x):
    x = _const(x)
    if not issym(x):
        return _m.acos(x)
    return Fraction(pi) / 2 - asin(x)


def atan2(y, x):
    y, x = _const(y), _const(x)
    if not issym(x, y):
        return _m.atan2(y, x)
    h = hypot(y, x)
    if bool(x > 0) if issym(x) else x > 0:
        return asin(y / h)
    if bool(x == 0):
        if bool(y > 0):
            return Fraction(pi) / 2
        if bool(y == 0):
            return 0.0
        return -Fraction(pi) / 2
    if bool(y >= 0):
        return Fraction(pi) - asin(y / h)
    return -Fraction(pi) - asin(y / h)


def atan(x):
    x = _const(x)
    if not issym(x):
        return _m.atan(x)
    return asin(x / sqrt(1 + x * x))


def hypot(x, y):
    return sqrt(x * x + y * y)


def _sincos(x):
    """(sin, cos) of a symbolic angle."""
    ctx = core.CTX
    r = x.r
    # quarter turns added to the angle
    if r.is_poly():
        c0 = r.num_den()[0].t.get((), 0)
        if c0:
            k = round(float(c0) / (_m.pi / 2))
            if k and abs(float(c0) - k * (_m.pi / 2)) < 1e-9 * max(1, abs(k)):
                rest = mk(ctx.add(r, Rat.const(-c0)))
                s, c = _sincos(rest) if issym(rest) else (
                    _m.sin(rest), _m.cos(rest))
                return [(s, c), (c, -s), (-s, -c), (-c, s)][k % 4]
    if len(r.f) == 1 and 0 < abs(abs(r.c) - 1) < 1e-14:
        # conversion to degrees and back
        r = Rat(1 if r.c > 0 else -1, r.f)
    for r2, a2 in ctx.asins:
        if a2 == r:
            s = mk(r2)
            return s, sqrt(1 - s * s)
        if a2 == r.neg():
            s = mk(r2.neg())
            return s, sqrt(1 - s * s)
    neg = r.c < 0
    k = r.neg() if neg else r
    sc = ctx.sincos.get(k)
    if sc is None:
        s = ctx.new_atom('sin', (k,))
        c = ctx.new_atom('cos', (k,))
        ctx.define(z3.And(s.z * s.z + c.z * c.z == 1,
                          s.z <= 1, s.z >= -1, c.z <= 1, c.z >= -1,
                          z3.Implies(ctx.rat_z3(k) == 0,
                                     z3.And(s.z == 0, c.z == 1))))
        ctx.has_sq = True
        s.sq = ctx.add(Rat.const(1), ctx.atom_rat(c).powi(2).neg())
        sc = (mk(ctx.atom_rat(s)), mk(ctx.atom_rat(c)))
        ctx.sincos[k] = sc
    s, c = sc
    return (-s if neg else s), c


def sin(x):
    x = _const(x)
    return _sincos(x)[0] if issym(x) else _m.sin(x)


def cos(x):
    x = _const(x)
    return _sincos(x)[1] if issym(x) else _m.cos(x)


def tan(x):
    x = _const(x)
    if not issym(x):
        return _m.tan(x)
    s, c = _sincos(x)
    return s / c


def radians(x):
    return x * (pi / 180.0)


def degrees(x):
    return x * (180.0 / pi)


def isnan(x):
    return False if issym(x) else _m.isnan(x)


def isinf(x):
    return False if issym(x) else _m.isinf(x)


def isfinite(x):
    return True if issym(x) else _m.isfinite(x)


def fabs(x):
    return abs(x) if issym(x) else _m.fabs(x)


def floor(x):
    return x.__floor__() if issym(x) else _m.floor(x)


def ceil(x):
    return x.__ceil__() if issym(x) else _m.ceil(x)


def trunc(x):
    return x.__trunc__() if issym(x) else _m.trunc(x)


def copysign(x, y):
    if not issym(x, y):
        return _m.copysign(x, y)
    return abs(x) if bool(y >= 0) else -abs(x)


def fmod(x, y):
    if not issym(x, y):
        return _m.fmod(x, y)
    return x - y * (x / y).__trunc__()


def isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    if not issym(a, b):
        return _m.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    if bool(a == b):
        return True
    return bool(abs(a - b) <= s_max(rel_tol * s_max(abs(a), abs(b)), abs_tol))


def fsum(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def prod(xs, start=1):
    for x in xs:
        start = start * x
    return start


def _list(args, key):
    if len(args) == 1:
        return list(args[0])
    return list(args)


def s_min(*args, **kw):
    if kw:
        return min(*args, **kw)
    xs = _list(args, None)
    if not issym(*xs):
        return min(xs)
    return core.CTX.minmax(xs, True)


def s_max(*args, **kw):
    if kw:
        return max(*args, **kw)
    xs = _list(args, None)
    if not issym(*xs):
        return max(xs)
    return core.CTX.minmax(xs, False)


def make_math():
    mod = types.ModuleType('math')
    for n in dir(_m):
        if not n.startswith('_'):
            v = getattr(_m, n)
            setattr(mod, n, _wrap(n) if callable(v) else v)
    for n in ('sqrt log log10 log1p exp pow asin acos atan atan2 hypot sin cos tan '
              'radians degrees isnan isinf isfinite fabs floor ceil trunc '
              'copysign fmod isclose fsum prod').split():
        setattr(mod, n, globals()[n])
    return mod


# --------------------------------------------------------------------------
# numpy

class IeeeNum(object):
    """np.array(x) of a symbolic scalar: division follows IEEE rules."""
    __array_ufunc__ = None

    def __init__(self, v):
        self.v = v

    def __rtruediv__(self, o):
        return np_divide(o, self.v)

    def __truediv__(self, o):
        return np_divide(self.v, o.v if isinstance(o, IeeeNum) else o)

    def __getattr__(self, n):
        return getattr(self.v, n)


for _op in ('add radd sub rsub mul rmul lt le gt ge eq ne neg abs float'
            .split()):
    def _mkop(op):
        nm = '__%s__' % op

        def f(self, *a):
            a = [x.v if isinstance(x, IeeeNum) else x for x in a]
            return getattr(self.v, nm)(*a)
        return f
    setattr(IeeeNum, '__%s__' % _op, _mkop(_op))


def np_divide(a, b):
    a = a.v if isinstance(a, IeeeNum) else a
    b = b.v if isinstance(b, IeeeNum) else b
    if not issym(a, b):
        return _np.divide(a, b)
    if bool(b == 0):
        if bool(a == 0):
            return nan
        return inf if bool(a > 0) else -inf
    return a / b


def np_interp(x, xp, fp):
    xp, fp = list(xp), list(fp)
    if not issym(x, *xp) and not issym(*fp):
        return _np.interp(x, xp, fp)
    if bool(x <= xp[0]):
        return fp[0]
    for i in range(len(xp) - 1):
        if bool(x <= xp[i + 1]):
            return fp[i] + (x - xp[i]) * (fp[i + 1] - fp[i]) / (
                xp[i + 1] - xp[i])
    return fp[-1]


def make_numpy():
    mod = types.ModuleType('numpy')

    def getattr_(name):
        v = getattr(_np, name)
        if callable(v) and not isinstance(v, type):
            def f(*a, **k):
                if any(_deepsym(x) for x in a):
                    raise Unsupported('numpy.%s on symbolic values' % name)
                return v(*a, **k)
            return f
        return v
    mod.__getattr__ = getattr_

    def array(x, *a, **k):
        if issym(x):
            return IeeeNum(x)
        if _deepsym(x):
            raise Unsupported('numpy.array of symbolic values')
        return _np.array(x, *a, **k)
    mod.array = array
    mod.asarray = array
    mod.divide = np_divide
    mod.true_divide = np_divide
    mod.interp = np_interp
    mod.float64 = lambda x: x if issym(x) else _np.float64(x)
    for a, b in (('sqrt', sqrt), ('log', log), ('exp', exp), ('sin', sin),
                 ('cos', cos), ('tan', tan), ('arcsin', asin),
                 ('arccos', acos), ('arctan2', atan2), ('arctan', atan),
                 ('hypot', hypot), ('power', pow), ('isnan', isnan),
                 ('isinf', isinf), ('isfinite', isfinite),
                 ('deg2rad', radians), ('rad2deg', degrees),
                 ('radians', radians), ('degrees', degrees),
                 ('floor', floor), ('ceil', ceil)):
        def mkf(a, b):
            real = getattr(_np, a)

            def f(*x, **k):
                return b(*x) if issym(*x) else real(*x, **k)
            return f
        setattr(mod, a, mkf(a, b))

    def np_abs(x):
        return abs(x)
    mod.abs = mod.fabs = mod.absolute = np_abs
    mod.minimum = lambda a, b: s_min(a, b)
    mod.maximum = lambda a, b: s_max(a, b)
    mod.clip = lambda x, a, b: s_min(s_max(x, a), b)
    return mod


def _deepsym(x):
    if type(x) is SymReal:
        return True
    if isinstance(x, (list, tuple)):
        return any(_deepsym(y) for y in x)
    return False
