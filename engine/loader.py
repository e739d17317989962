"""Loads pydtmc twice from /repo: the real package, and a second copy of the same source
files whose numbers are the exact symbolic numbers of `sym` (regenerated at every run)."""
import ast
import builtins
import csv as _csv
import inspect as _inspect
import json as _json
import linecache
import os
import random as _random
import re
import sys
import types
from fractions import Fraction

import numpy as np

from . import npshim as N
from . import sym as S
from .sym import Num, SInt, Unsupported

REPO = os.environ.get('PYDTMC_REPO', '/repo')


# ---------------------------------------------------------------- float / int
class _FloatMeta(type(float)):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, Num) and not x.isint)

    def __subclasscheck__(cls, c):
        return issubclass(c, float) or c is Num


class FloatShim(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, Num):
            return N.num(x)
        if isinstance(x, str):
            return N.num_of_str(x)
        if isinstance(x, (np.ndarray, S.SymBool)):
            return N.num(x)
        return N.num(float(x))


FloatShim.__name__ = FloatShim.__qualname__ = 'float'


class _IntMeta(type(int)):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or isinstance(x, SInt)

    def __subclasscheck__(cls, c):
        return issubclass(c, int) or c is SInt


class IntShim(int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a, **k):
        if isinstance(x, SInt):
            return x
        if isinstance(x, Num):
            return N.toint(x) if x.is_const() else x.__int__()
        if isinstance(x, S.SymBool):
            return int(bool(x))
        return int(x, *a, **k)


IntShim.__name__ = IntShim.__qualname__ = 'int'


# ---------------------------------------------------------------- operators
def div(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return N.NPM['np'].true_divide(a, b)
    if isinstance(a, (float, int, Fraction, np.generic)) and isinstance(b, (float, int, Fraction, np.generic)):
        npy = isinstance(a, np.generic) or isinstance(b, np.generic)
        x, y = S.lift(a), S.lift(b)
        if isinstance(x, Num) and isinstance(y, Num):
            if not y.n:
                if npy:
                    return S.divzero(x)
                raise ZeroDivisionError('division by zero')
            r = x / y
            return N.num(r)
        return a / b
    r = a / b
    return N.num(r) if isinstance(r, Num) else r


def idiv(a, b):
    if isinstance(a, np.ndarray) and a.ndim:
        a /= b
        return a
    return div(a, b)


def astype(x, *a, **k):
    if isinstance(x, (np.ndarray, np.generic)):
        return N.do_astype(x, *a, **k)
    if isinstance(x, Num):
        return N.num(x)
    return x.astype(*a, **k)


class Tr(ast.NodeTransformer):
    def __init__(self):
        self.consts = {}

    def visit_Constant(self, node):
        if type(node.value) is float:
            v = node.value
            if S.special(v):
                return node
            name = self.consts.setdefault(v, f'__fc{len(self.consts)}__')
            return ast.copy_location(ast.Name(id=name, ctx=ast.Load()), node)
        if type(node.value) is complex:
            return node
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        return node

    def visit_FormattedValue(self, node):
        node.value = self.visit(node.value)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id='__div__', ctx=ast.Load()), node),
                                              args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign(
                targets=[node.target],
                value=ast.Call(func=ast.Name(id='__idiv__', ctx=ast.Load()),
                               args=[ast.Name(id=node.target.id, ctx=ast.Load()), node.value], keywords=[])), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == 'astype':
            return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id='__astype__', ctx=ast.Load()), node),
                                              args=[f.value] + node.args, keywords=node.keywords), node)
        return node


# ---------------------------------------------------------------- module stand-ins
class Inspect(types.ModuleType):
    def __init__(self):
        super().__init__('inspect')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(_inspect, n)

    @staticmethod
    def _info(f, lineno):
        co = f.f_code
        line = linecache.getline(co.co_filename, lineno)
        return _inspect.FrameInfo(f, co.co_filename, lineno, co.co_name, [line] if line else None, 0)

    def stack(self, context=1):
        f = sys._getframe(1)
        out = []
        k = 0
        while f is not None and k < 12:
            co = f.f_code
            out.append(_inspect.FrameInfo(f, co.co_filename, f.f_lineno, co.co_name, None, None))
            f = f.f_back
            k += 1
        return out

    def currentframe(self):
        return sys._getframe(1)

    def trace(self, context=1):
        tb = sys.exc_info()[2]
        out = []
        while tb is not None:
            out.append(self._info(tb.tb_frame, tb.tb_lineno))
            tb = tb.tb_next
        return out


class Json(types.ModuleType):
    def __init__(self):
        super().__init__('json')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(_json, n)

    def dumps(self, o, **k):
        toks = {}

        def conv(x):
            if isinstance(x, Num):
                if x.isint and x.is_const():
                    return int(x.cval())
                key = f'@@tok{len(toks)}@@'
                toks[key] = str(x)
                return key
            if isinstance(x, dict):
                return {conv(a): conv(b) for a, b in x.items()}
            if isinstance(x, (list, tuple)):
                return [conv(y) for y in x]
            if isinstance(x, np.generic) and not isinstance(x, (float, str)):
                raise TypeError(f'Object of type {type(x).__name__} is not JSON serializable')
            return x
        s = _json.dumps(conv(o), **k)
        return re.sub('"(@@tok[0-9]+@@)"', lambda m: toks[m.group(1)], s)

    def dump(self, o, fp, **k):
        fp.write(self.dumps(o, **k))

    def loads(self, s, **k):
        k.setdefault('parse_float', N.num_of_str)
        return _json.loads(s, **k)

    def load(self, fp, **k):
        return self.loads(fp.read(), **k)


class Rand(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)

        def f(*a, **k):
            raise Unsupported('random.' + n)
        return f


def build_modules():
    m = {'math': N.MathShim(), 'inspect': Inspect(), 'json': Json(), 'random': Rand('random')}
    npm = N.NPM['np']
    m['numpy'] = npm
    m['numpy.linalg'] = npm.linalg
    m['numpy.random'] = npm.random
    m['numpy.random.mtrand'] = npm.random.mtrand
    sp = N.scipy_shim()
    m['scipy'] = sp
    for k in ('optimize', 'stats', 'integrate', 'linalg', 'sparse', 'special'):
        m['scipy.' + k] = getattr(sp, k)
    return m


SKIP = {'plotting'}


class Sym:
    """the symbolic copy of the package"""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.pk = os.path.join(self.repo, 'pydtmc')
        self.shims = build_modules()
        self.mods = {}
        self.sources = {}
        b = dict(builtins.__dict__)
        b['float'] = FloatShim
        b['int'] = IntShim
        b['__import__'] = self.imp
        b['open'] = open
        b['hash'] = N.sym_hash
        self.b = b

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0 or name == 'pydtmc' or name.startswith('pydtmc.'):
            full = name if level == 0 else ('pydtmc' + ('.' + name if name else ''))
            if full == 'pydtmc':
                pkg = types.ModuleType('pydtmc')
                for f in fromlist or ():
                    setattr(pkg, f, self.load(f))
                return pkg
            return self.load(full.split('.', 1)[1])
        if name in self.shims:
            mod = self.shims[name]
            if '.' in name and not fromlist:
                return self.shims[name.split('.')[0]]
            return mod
        root = name.split('.')[0]
        if root in self.shims and root in ('numpy', 'scipy'):
            if fromlist:
                raise Unsupported(f'import {name}')
            return self.shims[root]
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, short):
        m = self.mods.get(short)
        if m is not None:
            return m
        m = types.ModuleType('pydtmc.' + short)
        self.mods[short] = m
        if short in SKIP:
            return m
        fn = os.path.join(self.pk, *short.split('.')) + '.py'
        with open(fn, encoding='utf-8') as f:
            src = f.read()
        self.sources[short] = src
        tree = ast.parse(src, fn)
        tr = Tr()
        tree = ast.fix_missing_locations(tr.visit(tree))
        code = compile(tree, fn, 'exec')
        g = m.__dict__
        g['__builtins__'] = self.b
        g['__file__'] = fn
        g['__package__'] = 'pydtmc'
        g['__div__'], g['__idiv__'], g['__astype__'] = div, idiv, astype
        for v, nme in tr.consts.items():
            g[nme] = Num.const(Fraction(v))
        exec(code, g)
        if short == 'computations' and callable(g.get('rdl_decomposition')):
            # the decomposition is computed eagerly by its callers; it only stops a path that uses it
            g['rdl_decomposition'] = N.lazy_rdl(g['rdl_decomposition'])
        return m


class Api:
    pass


def make_api(get):
    a = Api()
    a.MarkovChain = get('markov_chain').MarkovChain
    a.HiddenMarkovModel = get('hidden_markov_model').HiddenMarkovModel
    a.ValidationError = get('exceptions').ValidationError
    ass = get('assessments')
    for n in ass.__all__:
        setattr(a, n, getattr(ass, n))
    a.mod = get
    return a


_S = {}


def symbolic():
    if 's' not in _S:
        s = Sym()
        api = make_api(s.load)
        api.np = N.NPM['np']
        api.loader = s
        _S['s'] = api
    return _S['s']


def real():
    if 'r' not in _S:
        import importlib
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        pk = importlib.import_module('pydtmc')
        if not os.path.realpath(pk.__file__).startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError(f'pydtmc loaded from {pk.__file__}')
        api = make_api(lambda n: importlib.import_module('pydtmc.' + n))
        api.np = np
        _S['r'] = api
    return _S['r']
