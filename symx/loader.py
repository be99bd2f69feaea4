"""Loads the real taupy sources from /repo with or without the shims."""
import ast
import builtins as _b
import os
import re
import string
import sys
import types
from fractions import Fraction

from . import core, mathshim
from .core import SymReal, SymBool
from .symstr import SymStr

REPO = os.environ.get('TAUPY_REPO', '/repo')


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _b.float) or type(o) is SymReal

    def __subclasscheck__(cls, c):
        return issubclass(c, _b.float) or c is SymReal

    def __call__(cls, x=0.0):
        if type(x) is SymReal:
            return x
        h = getattr(x, '__symfloat__', None)
        if h is not None:
            return h()
        if isinstance(x, SymStr):
            return _b.float(x.concrete())
        if isinstance(x, (_b.str, bytes)) and core.CTX is not None \
                and core.CTX.tokens:
            k = x if isinstance(x, _b.str) else x.decode('ascii', 'replace')
            v = core.CTX.tokens.get(k.strip())
            if v is not None:
                return v
        return _b.float(x)

    def __getattr__(cls, n):
        return getattr(_b.float, n)


class FloatShim(metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _b.int)

    def __subclasscheck__(cls, c):
        return issubclass(c, _b.int)

    def __call__(cls, x=0, *a):
        if type(x) is SymReal:
            return x.__trunc__()
        if isinstance(x, SymStr):
            return _b.int(x.concrete(), *a)
        return _b.int(x, *a)

    def __getattr__(cls, n):
        return getattr(_b.int, n)


class IntShim(metaclass=_IntMeta):
    pass


class _StrMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (_b.str, SymStr))

    def __subclasscheck__(cls, c):
        return issubclass(c, _b.str) or c is SymStr

    def __call__(cls, *a, **k):
        if a and isinstance(a[0], SymStr):
            return a[0]
        return _b.str(*a, **k)

    def __getattr__(cls, n):
        return getattr(_b.str, n)


class StrShim(metaclass=_StrMeta):
    pass


def _shim_print(*a, **k):
    if core.CAPTURING:
        _b.print(*a, **k)


def _shim_round(x, n=None):
    if type(x) is SymReal:
        return x.__round__(n)
    return _b.round(x) if n is None else _b.round(x, n)


def _shim_pow(a, b, m=None):
    if m is not None:
        return _b.pow(a, b, m)
    if mathshim.issym(a, b):
        if type(a) is SymReal:
            return a ** b
        return mathshim.pow(a, b)
    return _b.pow(a, b)


# -- strings: operations of str objects on symbolic strings ------------------
class _StrOps(ast.NodeTransformer):
    """x in y, 'fmt' % x and 'text'.method(x) reach str methods that accept
    real strings only: route them through the functions below."""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = _call('__symx_in__', [n.left, n.comparators[0]], n)
            if isinstance(n.ops[0], ast.NotIn):
                c = ast.copy_location(ast.UnaryOp(ast.Not(), c), n)
            return c
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(
                n.left, ast.Constant) and isinstance(n.left.value, str):
            return _call('__symx_mod__', [n.left, n.right], n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(
                f.value, ast.Constant) and isinstance(f.value.value, str):
            g = _call('__symx_str__', [f.value, ast.Constant(f.attr)], f)
            ast.fix_missing_locations(g)
            n.func = g
        return n


def _call(name, args, at):
    return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), args, []),
                             at)


def _sym_in(a, b):
    if isinstance(a, SymStr):
        if isinstance(b, str):
            return SymStr(tuple(b)).__contains__(a)
        if isinstance(b, (set, frozenset, dict)):
            return any(isinstance(x, (str, SymStr)) and a == x
                       for x in sorted(b, key=str))
    return a in b


def _text(x):
    return x if isinstance(x, (str, SymStr)) else str(x)


def _cat(parts):
    out = SymStr(())
    for p in parts:
        out = out + p
    return out


def _sym_mod(fmt, args):
    t = args if isinstance(args, tuple) else (args,)
    if not isinstance(args, dict) and core.PRINTED is not None and any(
            type(x) is SymReal for x in t):
        parts, i = [], 0
        for piece in re.split(r'(%[^a-zA-Z%]*[a-zA-Z%])', fmt):
            if piece[:1] == '%' and piece != '%%':
                x, i = t[i], i + 1
                parts.append(str(x) if type(x) is SymReal else piece % (x,))
            else:
                parts.append(piece.replace('%%', '%'))
        return ''.join(parts)
    if isinstance(args, dict) or not any(isinstance(x, SymStr) for x in t):
        return fmt % args
    parts, i = [], 0
    for piece in re.split(r'(%[^a-zA-Z%]*[a-zA-Z%])', fmt):
        if piece == '%%':
            parts.append('%')
        elif piece[:1] == '%':
            x = t[i]
            i += 1
            parts.append(x if isinstance(x, SymStr) else piece % (x,))
        else:
            parts.append(piece)
    return _cat(parts)


def _sym_format(fmt):
    def f(*a, **k):
        if not any(isinstance(x, SymStr)
                   for x in a + tuple(k.values())):
            return fmt.format(*a, **k)
        parts, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            parts.append(lit)
            if field is None:
                continue
            if field == '':
                field, auto = str(auto), auto + 1
            x, _ = string.Formatter().get_field(field, a, k)
            if isinstance(x, SymStr):
                parts.append(x)
            else:
                parts.append(format(str(x) if conv else x, spec or ''))
        return _cat(parts)
    return f


def _sym_strcall(s, name):
    if name == 'join':
        def join(xs):
            xs = list(xs)
            if not any(isinstance(x, SymStr) for x in xs):
                return s.join(xs)
            parts = []
            for i, x in enumerate(xs):
                if i:
                    parts.append(s)
                parts.append(x)
            return _cat(parts)
        return join
    if name == 'format':
        return _sym_format(s)

    def f(*a, **k):
        if any(isinstance(x, SymStr) for x in a):
            return getattr(SymStr(tuple(s)), name)(*a, **k)
        return getattr(s, name)(*a, **k)
    return f


class _Re(object):
    """the re module on concrete texts"""

    def __init__(self, real=re):
        self._real = real

    def __getattr__(self, n):
        v = getattr(self._real, n)
        if not callable(v) or isinstance(v, type):
            return v

        def f(*a, **k):
            r = v(*[x.concrete() if isinstance(x, SymStr) else x for x in a],
                  **k)
            return _Re(r) if isinstance(r, re.Pattern) else r
        return f


def _containers(v, out, depth=3):
    if isinstance(v, list):
        out.append((v, list(v)))
        kids = v
    elif isinstance(v, dict):
        out.append((v, dict(v)))
        kids = v.values()
    elif isinstance(v, set):
        out.append((v, set(v)))
        return
    elif isinstance(v, tuple):
        kids = v
    else:
        return
    if depth and len(v) < 1000:
        for k in kids:
            _containers(k, out, depth - 1)


def _state(mod):
    names = dict(mod.__dict__)
    classes, conts, caches = [], [], []

    def func(f):
        f = getattr(f, '__func__', f)
        if isinstance(f, property):
            f = f.fget
        if hasattr(f, 'cache_clear'):
            caches.append(f)
        if isinstance(f, types.FunctionType):
            for d in list(f.__defaults__ or ()) + list(
                    (f.__kwdefaults__ or {}).values()):
                _containers(d, conts)
            classes.append((f, dict(f.__dict__)))
    for k, v in names.items():
        if k.startswith('__'):
            continue
        if isinstance(v, type):
            if v.__module__ == mod.__name__:
                at = {a: x for a, x in v.__dict__.items()
                      if a not in ('__dict__', '__weakref__', '__doc__',
                                   '__module__')}
                classes.append((v, at))
                for x in at.values():
                    _containers(x, conts)
                    func(x)
        elif isinstance(v, types.FunctionType) or hasattr(v, 'cache_clear'):
            func(v)
        elif not isinstance(v, types.ModuleType):
            _containers(v, conts)
    return mod, names, classes, conts, caches


def _restore(st):
    mod, names, classes, conts, caches = st
    d = mod.__dict__
    for k in [k for k in d if k not in names]:
        if not isinstance(d[k], types.ModuleType) and \
                not k.startswith('__'):
            del d[k]
    for k, v in names.items():
        if d.get(k) is not v:
            d[k] = v
    for c, at in classes:
        if isinstance(c, types.FunctionType):
            if c.__dict__ != at:
                c.__dict__.clear()
                c.__dict__.update(at)
            continue
        for a in [a for a in c.__dict__ if a not in at and a not in (
                '__dict__', '__weakref__', '__doc__', '__module__')
                and not (a.startswith('__') and a.endswith('__'))]:
            delattr(c, a)
        for a, x in at.items():
            if c.__dict__.get(a) is not x:
                setattr(c, a, x)
    for c, old in conts:
        if isinstance(c, list):
            c[:] = old
        else:
            c.clear()
            c.update(old)
    for f in caches:
        f.cache_clear()


class Loader(object):
    """sym=True: code runs on proxies; sym=False: the unmodified real code."""

    def __init__(self, sym, root=None, opener=None):
        self.sym = sym
        self.root = os.path.join(root or REPO, 'taupy')
        self.mods = {}
        self.base = {}
        self.opener = opener
        self.math = mathshim.make_math() if sym else None
        self.np = mathshim.make_numpy() if sym else None
        d = dict(_b.__dict__)
        d['__import__'] = self._import
        d['print'] = _shim_print
        if sym:
            d['__symx_in__'] = _sym_in
            d['__symx_mod__'] = _sym_mod
            d['__symx_str__'] = _sym_strcall
            d['float'] = FloatShim
            d['int'] = IntShim
            d['str'] = StrShim
            d['min'] = mathshim.s_min
            d['max'] = mathshim.s_max
            d['round'] = _shim_round
            d['pow'] = _shim_pow
        d['open'] = self._open
        self.builtins = d

    def _open(self, name, *a, **k):
        if self.opener is not None:
            f = self.opener(name, *a, **k)
            if f is not None:
                return f
        return _b.open(name, *a, **k)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parts = name.split('.')
        assert parts[0] == 'taupy'
        mod = types.ModuleType(name)
        if len(parts) == 1:
            mod.__path__ = [self.root]
            mod.__package__ = 'taupy'
            self.mods[name] = mod
            return mod
        path = os.path.join(self.root, *parts[1:])
        if os.path.isdir(path):
            path = os.path.join(path, '__init__')
            mod.__path__ = [os.path.dirname(path)]
            mod.__package__ = name
        else:
            mod.__package__ = '.'.join(parts[:-1])
        path += '.py'
        if not os.path.exists(path):
            raise ImportError('No module named %r' % name)
        mod.__file__ = path
        mod.__dict__['__builtins__'] = self.builtins
        parent = self.load('.'.join(parts[:-1]))
        self.mods[name] = mod
        with _b.open(path) as f:
            src = f.read()
        try:
            if self.sym:
                src = ast.fix_missing_locations(
                    _StrOps().visit(ast.parse(src, path)))
            exec(compile(src, path, 'exec'), mod.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        setattr(parent, parts[-1], mod)
        self.base[name] = _state(mod)
        return mod

    def reset(self):
        """module, class and default-argument state as after loading, so
        that nothing leaks from one path to the next"""
        for st in list(self.base.values()):
            _restore(st)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rsplit('.', 1)[0]
            name = pkg + ('.' + name if name else '')
        if name == 'taupy' or name.startswith('taupy.'):
            mod = self.load(name)
            if fromlist:
                for n in fromlist:
                    if not hasattr(mod, n):
                        try:
                            self.load(name + '.' + n)
                        except ImportError:
                            pass
                return mod
            return self.load('taupy')
        if self.sym:
            if name == 'math':
                return self.math
            if name == 'numpy':
                return self.np
            if name == 're':
                return _Re()
        return _b.__import__(name, globals, locals, fromlist, 0)

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        return self.load('taupy.' + n)
