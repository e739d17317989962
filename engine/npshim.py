"""numpy / scipy / math stand-ins over exact symbolic numbers.

`SArr` is an object-dtype ndarray of `Num` (or special Python floats) that reports
dtype float64.  Elementwise arithmetic, indexing, shapes and reductions are numpy's
own; the functions that look at dtypes or call LAPACK are defined here from their
documented meaning (isclose, allclose, linalg.solve/inv/det, nnls, ...).
"""
import builtins
import itertools
import math
import types
from fractions import Fraction

import numpy as np

from . import sym as S
from .sym import Num, SInt, SymBool, Unsupported

F64 = np.dtype('float64')
I64 = np.dtype('int64')
_rdtype = np.ndarray.dtype.__get__
HOOK = {}


def real_dtype(a):
    return _rdtype(a)


def isobj(a):
    return isinstance(a, np.ndarray) and _rdtype(a) == object


def box(x):
    """0-d object array holding x"""
    a = np.empty((), dtype=object)
    a[()] = x
    return a


class NegZero(Num):
    """-0.0: only the bytes (and the text) tell it from zero"""
    __slots__ = ()

    def __repr__(self):
        return '-0.0'
    __str__ = __repr__


NEGZERO = NegZero({})


def num(x):
    """element stored in object arrays: Num or special float or -0.0"""
    if isinstance(x, Num):
        return x if not x.isint else Num(x.n, x.d)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if S.special(x):
            return x
        if x == 0.0 and math.copysign(1.0, x) < 0:
            return NEGZERO
        return Num.const(Fraction(x))
    if isinstance(x, (bool, np.bool_)):
        return Num.const(int(x))
    if isinstance(x, (int, np.integer)):
        return Num.const(int(x))
    if isinstance(x, Fraction):
        return Num.const(x)
    if isinstance(x, SymBool):
        return Num.const(int(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return num(x.item())
    if isinstance(x, (complex, np.complexfloating)):
        raise Unsupported('complex')
    if isinstance(x, str):
        return num_of_str(x)
    raise TypeError(f'float() argument must be a string or a real number, not {type(x).__name__!r}')


def num_of_str(s):
    x = S.untoken(s)
    if x is not None:
        return x
    return num(float(s))


_num_u = np.frompyfunc(num, 1, 1)


def plain(a):
    """SArr -> base object ndarray"""
    return a.view(np.ndarray) if isinstance(a, SArr) else a


def wrap(a):
    """result of a real numpy call -> shim value"""
    if isinstance(a, SArr):
        return a
    if isinstance(a, np.ndarray):
        dt = _rdtype(a)
        if dt == object:
            return a.view(SArr)
        if dt.kind == 'f':
            return _tosarr(a)
        if dt.kind == 'c':
            raise Unsupported('complex')
        return a
    if isinstance(a, (float, np.floating)):
        return num(a)
    if isinstance(a, tuple):
        return tuple(wrap(x) for x in a) if type(a) is tuple else a
    if isinstance(a, list):
        return [wrap(x) for x in a]
    return a


def _tosarr(a):
    r = _num_u(plain(np.asarray(a)))
    if not isinstance(r, np.ndarray):
        r = box(r)
    return r.view(SArr)


def sarr(x):
    """anything array-like -> SArr of Num"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        if _rdtype(x) == object:
            return x.view(SArr)
        return _tosarr(x)
    return mkarray(x).astype(float) if not isinstance(x, (Num, float, int)) else box(num(x)).view(SArr)


def unwrap(x):
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if type(x) in (list, tuple):
        return type(x)(unwrap(y) for y in x)
    return x


def hasnum(x):
    if isinstance(x, (Num, SArr)):
        return True
    if isinstance(x, np.ndarray):
        return _rdtype(x) == object
    if isinstance(x, (list, tuple)):
        return builtins.any(hasnum(y) for y in x)
    return False


# --------------------------------------------------------------- elementwise maps
def _nan(x):
    return isinstance(x, float) and x != x


def _el_isfinite(x):
    return not (isinstance(x, float) and S.special(x))


def _el_isnan(x):
    return _nan(x)


def _el_isinf(x):
    return isinstance(x, float) and (x in (S._INF, -S._INF))


def _el_fn(name):
    def f(x):
        if isinstance(x, float) and S.special(x):
            with np.errstate(all='ignore'):
                return float(getattr(np, name)(x))
        x = num(x)
        return getattr(x, name)()
    return f


def _el_log(x):
    if isinstance(x, float) and S.special(x):
        return x if x > 0 else float('nan')
    return num(x).log()


def _el_exp(x):
    if isinstance(x, float) and S.special(x):
        return x if x != -S._INF else Num.const(0)
    return num(x).exp()


def _el_abs(x):
    return abs(x)


def _el_div(a, b):
    a, b = num(a), num(b)
    if isinstance(a, float) and isinstance(b, float):
        return float('nan')
    return a / b


def _el_pow(a, b):
    a = num(a)
    if isinstance(a, float):
        return a ** float(b.cval() if isinstance(b, Num) else b)
    return a ** b


def _el_floordiv(a, b):
    return num(a) // num(b)


def _el_mod(a, b):
    return num(a) % num(b)


def _el_max(a, b):
    if _nan(a) or _nan(b):
        return float('nan')
    return a if a >= b else b


def _el_min(a, b):
    if _nan(a) or _nan(b):
        return float('nan')
    return a if a <= b else b


def _el_sq(x):
    return x * x


def _el_sign(x):
    if isinstance(x, float) and S.special(x):
        return x if x != x else Num.const(1 if x > 0 else -1)
    return num(x).sign()


def _el_rint(x):
    return num(x).rint()


def _fp(f, n=1, boolean=False):
    u = np.frompyfunc(f, n, 1)

    def g(*args):
        r = u(*args)
        if boolean:
            return r.astype(bool) if isinstance(r, np.ndarray) else bool(r)
        return r
    return g


UMAP = {
    np.isfinite: _fp(_el_isfinite, 1, True), np.isnan: _fp(_el_isnan, 1, True), np.isinf: _fp(_el_isinf, 1, True),
    np.log: _fp(_el_log), np.exp: _fp(_el_exp), np.sqrt: _fp(_el_fn('sqrt')), np.log2: _fp(_el_fn('log2')),
    np.log10: _fp(_el_fn('log10')), np.cos: _fp(_el_fn('cos')), np.sin: _fp(_el_fn('sin')),
    np.absolute: _fp(_el_abs), np.fabs: _fp(_el_abs), np.sign: _fp(_el_sign), np.true_divide: _fp(_el_div, 2),
    np.power: _fp(_el_pow, 2), np.float_power: _fp(_el_pow, 2), np.floor_divide: _fp(_el_floordiv, 2),
    np.remainder: _fp(_el_mod, 2),
    np.maximum: _fp(_el_max, 2), np.minimum: _fp(_el_min, 2), np.fmax: _fp(_el_max, 2), np.fmin: _fp(_el_min, 2),
    np.square: _fp(_el_sq), np.rint: _fp(_el_rint), np.conjugate: _fp(lambda x: x),
    np.logical_not: _fp(lambda x: not x, 1, True),
    np.logical_and: _fp(lambda a, b: bool(a) and bool(b), 2, True),
    np.logical_or: _fp(lambda a, b: bool(a) or bool(b), 2, True),
}
BOOLRED = {np.logical_and, np.logical_or}


def ufunc_dispatch(ufunc, method, inputs, kwargs):
    out = kwargs.pop('out', None)
    where = kwargs.pop('where', True)
    kwargs.pop('casting', None)
    kwargs.pop('dtype', None)
    ins = []
    for x in inputs:
        if isinstance(x, SArr):
            ins.append(x.view(np.ndarray))
        elif isinstance(x, Num):
            ins.append(box(x))
        elif isinstance(x, np.ndarray):
            ins.append(_num_u(x) if _rdtype(x).kind == 'f' and x.size else x)
        elif isinstance(x, (list, tuple)):
            y = mkarray(x)
            ins.append(y.view(np.ndarray) if isinstance(y, SArr) else y)
        elif isinstance(x, (float, np.floating)):
            ins.append(box(num(x)))
        else:
            ins.append(x)
    if method == '__call__' and out is not None and where is not True:
        o = out[0]
        r = ufunc_dispatch(ufunc, '__call__', inputs, dict(kwargs))
        m = np.broadcast_to(np.asarray(where, dtype=bool), o.shape)
        rr = np.broadcast_to(plain(r), o.shape)
        plain(o)[m] = rr[m]
        return o
    if method == '__call__':
        if ufunc in UMAP:
            r = UMAP[ufunc](*ins)
        elif ufunc is np.matmul:
            r = _matmul(ins[0], ins[1])
        else:
            r = getattr(ufunc, method)(*ins, **kwargs)
    elif method == 'reduce' and ufunc in BOOLRED:
        a = np.asarray(ins[0])
        b = np.frompyfunc(bool, 1, 1)(a)
        b = b.astype(bool) if isinstance(b, np.ndarray) else np.bool_(b)
        kwargs.pop('initial', None)
        r = ufunc.reduce(b, **{k: v for k, v in kwargs.items() if k in ('axis', 'keepdims')})
    elif method == 'reduce' and ufunc in (np.maximum, np.minimum):
        f = np.frompyfunc(_el_max if ufunc is np.maximum else _el_min, 2, 1)
        a = ins[0]
        kw = {k: v for k, v in kwargs.items() if k in ('axis', 'keepdims')}
        if kw.get('axis', 0) is None and a.ndim > 1 and not kw.get('keepdims'):
            a = a.ravel()
            kw['axis'] = 0
        elif 'axis' in kw and kw['axis'] is None:
            kw['axis'] = 0 if a.ndim == 1 else tuple(range(a.ndim))
        r = f.reduce(a, **kw)
    else:
        if where is not True:
            kwargs['where'] = where
            if method == 'reduce' and ufunc is np.add:
                kwargs['initial'] = Num.const(0)
        if kwargs.get('initial', 0) is np._NoValue:
            kwargs.pop('initial')
        r = getattr(ufunc, method)(*ins, **kwargs)
    if out is not None:
        o = out[0]
        if isinstance(o, np.ndarray):
            if _rdtype(o).kind in 'iu' and isinstance(r, np.ndarray) and _rdtype(r) == object:
                raise np.core._exceptions._UFuncOutputCastingError(ufunc, 'same_kind', F64, _rdtype(o), 0)
            plain(o)[...] = r
            return o
    return wrapu(r)


def wrapu(r):
    if isinstance(r, np.ndarray):
        if _rdtype(r) == object:
            if r.ndim == 0:
                return r[()]
            return r.view(SArr)
        if _rdtype(r).kind == 'f':
            return _tosarr(r)
        return r
    if isinstance(r, (float, np.floating)):
        return num(r)
    return r


def _matmul(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported('matmul')
    return _dot(a, b)


def _dot(a, b):
    """np.dot on object arrays, skipping exact zeros"""
    a, b = np.asarray(plain(a)), np.asarray(plain(b))
    if a.ndim == 0 or b.ndim == 0:
        return np.multiply(a, b)
    if _rdtype(a) != object and _rdtype(b) != object:
        if _rdtype(a).kind in 'iub' and _rdtype(b).kind in 'iub':
            return np.dot(a, b)
        a, b = plain(sarr(a)), plain(sarr(b))
    if a.ndim > 2 or b.ndim > 2:
        return np.dot(a, b)
    A = a if a.ndim == 2 else a[None, :]
    B = b if b.ndim == 2 else b[:, None]
    if A.shape[1] != B.shape[0]:
        raise ValueError(f'shapes {a.shape} and {b.shape} not aligned: {A.shape[1]} (dim {A.ndim - 1}) != {B.shape[0]} (dim 0)')
    R = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            t = Num.const(0)
            for k in range(A.shape[1]):
                x, y = num(A[i, k]), num(B[k, j])
                if isinstance(x, Num) and isinstance(y, Num) and (not x.n or not y.n):
                    continue
                t = t + x * y
            R[i, j] = t
    if a.ndim == 1 and b.ndim == 1:
        return R[0, 0]
    if a.ndim == 1:
        return R[0]
    if b.ndim == 1:
        return R[:, 0]
    return R


class SArr(np.ndarray):
    __array_priority__ = 100

    @property
    def dtype(self):
        d = _rdtype(self)
        return F64 if d == object else d

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return NPM['np'].zeros(self.shape)

    @property
    def itemsize(self):
        return 8

    @property
    def nbytes(self):
        return 8 * self.size

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return ufunc_dispatch(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types_, args, kwargs):
        # only reached from third-party code that calls the real numpy
        f = getattr(NPM['np'], func.__name__, None)
        if f is None:
            raise Unsupported(f'numpy.{func.__name__}')
        return f(*args, **kwargs)

    def _b(self):
        return self.view(np.ndarray)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return np.logical_or.reduce(self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return np.logical_and.reduce(self, axis=axis, keepdims=keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return NPM['np'].sum(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return wrapu(self._b().prod(axis=axis, keepdims=keepdims))

    def mean(self, axis=None, keepdims=False, **kw):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis, keepdims=keepdims) / n

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return NPM['np'].amax(self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return NPM['np'].amin(self, axis=axis, keepdims=keepdims)

    def argmax(self, axis=None, **kw):
        return NPM['np'].argmax(self, axis=axis)

    def argmin(self, axis=None, **kw):
        return NPM['np'].argmin(self, axis=axis)

    def argsort(self, axis=-1, **kw):
        return NPM['np'].argsort(self, axis=axis)

    def sort(self, axis=-1, **kw):
        self._b()[...] = plain(NPM['np'].sort(self, axis=axis))

    def cumsum(self, axis=None, **kw):
        return NPM['np'].cumsum(self, axis=axis)

    def cumprod(self, axis=None, **kw):
        return NPM['np'].cumprod(self, axis=axis)

    def dot(self, b, out=None):
        return wrapu(_dot(self, b))

    def nonzero(self):
        return NPM['np'].nonzero(self)

    def round(self, decimals=0, out=None):
        return NPM['np'].round(self, decimals)

    def clip(self, a_min=None, a_max=None, **kw):
        return NPM['np'].clip(self, a_min, a_max)

    def trace(self, *a, **k):
        return NPM['np'].trace(self)

    def conjugate(self):
        return self.copy()
    conj = conjugate

    def astype(self, t, *a, copy=True, **k):
        return do_astype(self, t, copy=copy)

    def copy(self, order='C'):
        return self._b().copy().view(SArr)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def tolist(self):
        return self._b().tolist()

    def tobytes(self, order='C'):
        out = []
        for x in self._b().ravel():
            if type(x) is float:
                out.append(('f', repr(x)))
            else:
                out.append(S_key(x))
        r = SBytes(out)
        r.vals = list(self._b().ravel())
        return r

    def fill(self, v):
        self._b()[...] = num(v)

    def item(self, *args):
        return self._b().item(*args)

    def __setitem__(self, k, v):
        k = fixkey(k)
        if _rdtype(self) == object:
            if isinstance(v, SArr):
                v = v.view(np.ndarray)
            elif isinstance(v, np.ndarray):
                v = _num_u(v) if v.size else v
            elif isinstance(v, (list, tuple)):
                v = plain(mkarray(v).astype(float))
            elif v is None:
                v = float('nan')
            else:
                v = num(v)
        np.ndarray.__setitem__(self.view(np.ndarray), k, v)

    def __getitem__(self, k):
        k = fixkey(k)
        r = np.ndarray.__getitem__(self.view(np.ndarray), k)
        if isinstance(r, np.ndarray) and _rdtype(r) == object:
            return r.view(SArr)
        return r

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, x):
        return builtins.any(bool(y == x) for y in self._b().ravel())

    def __float__(self):
        raise Unsupported('float(array)')

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
        return bool(self._b().ravel()[0])

    def __reduce__(self):
        raise Unsupported('pickle')

    def __repr__(self):
        return 'SArr' + repr(self._b())
    __str__ = __repr__


class SBytes(tuple):
    vals = None


class SHash(int):
    """hash value of an object that contains symbolic numbers: equal exactly when the contents are (no collisions)"""
    def __new__(cls, obj):
        r = int.__new__(cls, hash(obj))
        r.obj = obj
        return r

    def __eq__(self, o):
        if isinstance(o, SHash):
            return hsame(self.obj, o.obj)
        return False if isinstance(o, int) else NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return int(self)

    def _stop(self, *a):
        raise Unsupported('arithmetic on hash values')
    __add__ = __radd__ = __xor__ = __rxor__ = __mul__ = __rmul__ = __mod__ = __and__ = __or__ = __sub__ = __rshift__ = __lshift__ = _stop


def symbolic_inside(o):
    if isinstance(o, (tuple, frozenset)) and not isinstance(o, SBytes):
        return builtins.any(symbolic_inside(x) for x in o)
    return isinstance(o, (SBytes, Num, SHash))


def sym_hash(o):
    return SHash(o) if symbolic_inside(o) else hash(o)


def hsame(a, b):
    if isinstance(a, SBytes) and isinstance(b, SBytes):
        if a.vals is None or b.vals is None or len(a) != len(b):
            return tuple(a) == tuple(b)
        for x, y in zip(a.vals, b.vals):
            # the bytes of a number: -0.0 and 0.0 differ
            if isinstance(x, Num) and isinstance(y, Num):
                if isinstance(x, NegZero) != isinstance(y, NegZero) or not bool(x == y):
                    return False
            elif not (isinstance(x, float) and isinstance(y, float) and repr(x) == repr(y)):
                return False
        return True
    if isinstance(a, SBytes) or isinstance(b, SBytes):
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and builtins.all(hsame(x, y) for x, y in zip(a, b))
    if isinstance(a, (Num, float)) and isinstance(b, (Num, float)):
        return bool(a == b)
    return a == b


def S_key(x):
    if isinstance(x, NegZero):
        return '-0.0'
    return x.key() if isinstance(x, Num) else x


def fixkey(k):
    if isinstance(k, SArr):
        return _idx(k)
    if isinstance(k, SInt):
        return k.__index__()
    if isinstance(k, tuple):
        return tuple(fixkey(x) for x in k)
    if isinstance(k, list) and builtins.any(isinstance(x, (SInt, SymBool)) for x in k):
        return [fixkey(x) if not isinstance(x, SymBool) else bool(x) for x in k]
    return k


def _idx(a):
    raise IndexError('arrays used as indices must be of integer (or boolean) type')


def is_float_dt(dt):
    if dt is None:
        return True
    if isinstance(dt, type) and issubclass(dt, float):
        return True
    if isinstance(dt, type) and (issubclass(dt, int) or dt is bool or issubclass(dt, np.integer) or dt is np.bool_):
        return False
    try:
        k = np.dtype(dt).kind
    except Exception:
        return False
    if k == 'c':
        raise Unsupported('complex')
    return k == 'f'


def real_dt(dt):
    """shim dtype -> real numpy dtype for non-float arrays"""
    if isinstance(dt, type) and issubclass(dt, bool):
        return bool
    if isinstance(dt, type) and issubclass(dt, int):
        return int
    return dt


def toint(x):
    if isinstance(x, Num):
        if x.is_const():
            return int(x.cval())
        if x.isint:
            return x.__index__()
        raise Unsupported('int() of a symbolic real')
    return int(x)


def do_astype(a, t, *args, **kw):
    if not isinstance(a, np.ndarray):
        if isinstance(a, np.generic):
            if is_float_dt(t):
                return num(a.item())
            return a.astype(real_dt(t))
        return a.astype(t, *args, **kw)
    if is_float_dt(t):
        if _rdtype(a) == object:
            if kw.get('copy', True) is False and isinstance(a, SArr):
                return a
            return _tosarr(a)
        return _tosarr(a) if _rdtype(a).kind in 'iubf' else _tosarr(np.frompyfunc(lambda s: num(str(s)), 1, 1)(a))
    if t is object:
        return plain(a).copy()
    if _rdtype(a) == object:
        if isinstance(t, type) and (issubclass(t, bool) or t is np.bool_):
            r = np.frompyfunc(bool, 1, 1)(plain(a))
            return r.astype(bool)
        if isinstance(t, type) and issubclass(t, (int, np.integer)):
            r = np.frompyfunc(toint, 1, 1)(plain(a))
            return np.asarray(r).astype(int)
        if isinstance(t, type) and issubclass(t, str):
            return np.frompyfunc(str, 1, 1)(plain(a)).astype(str)
        if np.dtype(t).kind in 'iu':
            return np.asarray(np.frompyfunc(toint, 1, 1)(plain(a))).astype(t)
        raise Unsupported(f'astype {t}')
    return a.astype(real_dt(t), *args, **kw)


def mkarray(x, dtype=None):
    """np.array / np.asarray"""
    if isinstance(x, np.ndarray):
        if dtype is not None:
            return do_astype(x, dtype)
        if _rdtype(x) == object:
            return plain(x).copy().view(SArr)
        return _tosarr(x) if _rdtype(x).kind == 'f' else x.copy()
    if isinstance(x, (Num, SymBool)):
        if isinstance(x, SInt) and dtype is None:
            return np.array(x.__index__())
        return box(num(x)).view(SArr)
    if isinstance(x, (list, tuple)):
        if not hasnum(x):
            r = np.array(x) if dtype is None else (np.array(x, dtype=real_dt(dtype)) if not is_float_dt(dtype) else np.array(x))
            if dtype is not None and is_float_dt(dtype):
                return do_astype(r, float)
            if _rdtype(r).kind == 'f':
                return _tosarr(r)
            return r
        # build shape
        shape = []
        y = x
        while isinstance(y, (list, tuple)) or (isinstance(y, np.ndarray) and y.ndim):
            shape.append(len(y))
            if len(y) == 0:
                break
            y = y[0]
        r = np.empty(tuple(shape), dtype=object)

        def fill(y, pos):
            if len(pos) == len(shape):
                if isinstance(y, (list, tuple)) or (isinstance(y, np.ndarray) and y.ndim):
                    raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
                r[pos] = y
                return
            if not (isinstance(y, (list, tuple)) or (isinstance(y, np.ndarray) and y.ndim)) or len(y) != shape[len(pos)]:
                raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
            for i, z in enumerate(y):
                fill(z, pos + (i,))
        fill(x, ())
        flat = r.ravel()
        if dtype is None:
            if builtins.all(isinstance(z, (SInt, int, np.integer)) and not isinstance(z, bool) for z in flat):
                return np.array([int(z) for z in flat], dtype=int).reshape(r.shape)
            if builtins.all(isinstance(z, (bool, SymBool, np.bool_)) for z in flat):
                return np.array([bool(z) for z in flat], dtype=bool).reshape(r.shape)
            if builtins.any(isinstance(z, str) or z is None for z in flat):
                return np.empty(r.shape, dtype='U1')
            return _tosarr(r)
        if is_float_dt(dtype):
            return _tosarr(r)
        return do_astype(r.view(SArr), dtype)
    return wrap(np.array(x) if dtype is None else np.array(x, dtype=real_dt(dtype)))


# --------------------------------------------------------------- scalar helpers
def closef(a, b, rtol=None, atol=None, equal_nan=False):
    """isclose(a, b) on scalars -> bool / SymBool"""
    rtol = Num.const(Fraction(1, 100000)) if rtol is None else num(rtol)
    atol = Num.const(Fraction(1, 10 ** 8)) if atol is None else num(atol)
    a, b = num(a), num(b)
    if isinstance(a, float) or isinstance(b, float):
        if _nan(a) or _nan(b):
            return bool(equal_nan and _nan(a) and _nan(b))
        if isinstance(a, float) and isinstance(b, float):
            return a == b
        return False
    tol = atol + rtol * abs(b)
    d = a - b
    r1 = d <= tol
    if r1 is False:
        return False
    r2 = -d <= tol
    if r1 is True and r2 is True:
        return True
    return S.mkb(S.f_and([S.form(r1), S.form(r2)]))


def _isclose(a, b, rtol=None, atol=None, equal_nan=False):
    u = np.frompyfunc(lambda x, y: bool(closef(x, y, rtol, atol, equal_nan)), 2, 1)
    r = u(_asobj(a), _asobj(b))
    if isinstance(r, np.ndarray):
        return r.astype(bool) if r.ndim else np.bool_(r[()])
    return np.bool_(r)


def _asobj(a):
    if isinstance(a, SArr):
        return a.view(np.ndarray)
    if isinstance(a, (Num, float, int, np.generic)):
        return box(num(a))
    return plain(sarr(a))


def _conj(pairs):
    fs = []
    for r in pairs:
        if r is False:
            return False
        fs.append(S.form(r))
    return S.mkb(S.f_and(fs))


def _allclose(a, b, rtol=None, atol=None, equal_nan=False):
    x, y = np.broadcast_arrays(_asobj(a), _asobj(b))
    return bool(_conj(closef(u, v, rtol, atol, equal_nan) for u, v in zip(x.ravel(), y.ravel())))


def _array_equal(a, b, equal_nan=False):
    if not hasnum(a) and not hasnum(b):
        return bool(np.array_equal(a, b))
    a, b = sarr(a), sarr(b)
    if a.shape != b.shape:
        return False
    return bool(_conj((x == y) for x, y in zip(a._b().ravel(), b._b().ravel())))


class Missing:
    pass


MAXIMUM = Num.const(Fraction(1.7976931348623157e308))
OVERFLOW = MAXIMUM + 2 ** 970                           # sums from here on round to infinity


def _overflow(x):
    if not isinstance(x, Num):
        return x
    if x.is_const():
        return x if abs(x.cval()) < OVERFLOW.cval() else math.copysign(math.inf, x.cval())
    if bool(x >= OVERFLOW):
        return math.inf
    return x


class NP(types.ModuleType):
    """the numpy stand-in"""
    enormous = False

    def __init__(self):
        super().__init__('numpy')
        self.linalg = LA()
        self.random = RND()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        v = getattr(np, name)
        if isinstance(v, type) or isinstance(v, types.ModuleType):
            return v
        if isinstance(v, np.ufunc):
            w = UWrap(v)
        elif callable(v):
            def w(*a, **k):
                return wrap(v(*[unwrap(x) for x in a], **{p: unwrap(q) for p, q in k.items()}))
        elif isinstance(v, float) and not S.special(v):
            w = Num.const(Fraction(v))
        else:
            w = v
        self.__dict__[name] = w
        return w

    # creation
    def zeros(self, shape, dtype=float, order='C', **k):
        return self._full(shape, 0, dtype)

    def ones(self, shape, dtype=float, order='C', **k):
        return self._full(shape, 1, dtype)

    def empty(self, shape, dtype=float, order='C', **k):
        return self._full(shape, 0, dtype)

    def _full(self, shape, v, dtype):
        shape = fixshape(shape)
        if not is_float_dt(dtype):
            return np.full(shape, toint(v) if not isinstance(v, bool) else v, dtype=real_dt(dtype))
        r = np.empty(shape, dtype=object)
        r[...] = num(v)
        return r.view(SArr)

    def full(self, shape, v, dtype=None, order='C', **k):
        if dtype is None and isinstance(v, (int, np.integer, bool)):
            return np.full(fixshape(shape), v)
        if isinstance(v, (np.ndarray, list)):
            r = self._full(shape, 0, float)
            r[...] = v
            return r
        return self._full(shape, v, float if dtype is None else dtype)

    def _like(self, a, v, dtype):
        if dtype is None:
            dtype = float if (isinstance(a, SArr) or hasnum(a)) else np.asarray(a).dtype
        return self._full(np.shape(a), v, dtype)

    def zeros_like(self, a, dtype=None, **k):
        return self._like(a, 0, dtype)

    def ones_like(self, a, dtype=None, **k):
        return self._like(a, 1, dtype)

    def empty_like(self, a, dtype=None, **k):
        return self._like(a, 0, dtype)

    def full_like(self, a, v, dtype=None, **k):
        return self._like(a, v, dtype)

    def eye(self, n, m=None, k=0, dtype=float, **kw):
        e = np.eye(toint(n), None if m is None else toint(m), k, dtype=int)
        return _tosarr(e) if is_float_dt(dtype) else e.astype(real_dt(dtype))

    def identity(self, n, dtype=float):
        return self.eye(n, dtype=dtype)

    def arange(self, *a, dtype=None, **k):
        if builtins.all(isinstance(x, (int, np.integer, SInt)) for x in a) and (dtype is None or not is_float_dt(dtype)):
            return np.arange(*[int(x) for x in a])
        xs = [num(x) for x in a]
        start, stop, step = Num.const(0), None, Num.const(1)
        if len(xs) == 1:
            stop = xs[0]
        else:
            start, stop = xs[0], xs[1]
            if len(xs) > 2:
                step = xs[2]
        n = (stop - start) / step
        if not n.is_const():
            raise Unsupported('arange')
        n = max(0, math.ceil(n.cval()))
        return mkarray([start + step * i for i in range(n)], float)

    def linspace(self, a, b, num=50, endpoint=True, **k):
        n = toint(num)
        a, b = _n(a), _n(b)
        d = n - 1 if endpoint else n
        return mkarray([a + (b - a) * i / d if d else a for i in range(n)], float)

    def array(self, x, dtype=None, copy=True, **k):
        nd = k.get('ndmin', 0)
        r = mkarray(x, dtype)
        while r.ndim < nd:
            r = r[None]
        return r

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, SArr) and (dtype is None or is_float_dt(dtype)):
            return x
        if isinstance(x, np.ndarray) and dtype is None and _rdtype(x).kind != 'f':
            return x
        return mkarray(x, dtype)
    asanyarray = asarray
    ascontiguousarray = asarray

    def atleast_1d(self, x):
        x = self.asarray(x)
        return x[None] if x.ndim == 0 else x

    def atleast_2d(self, x):
        x = self.atleast_1d(x)
        return x[None, :] if x.ndim == 1 else x

    def copy(self, a, *x, **k):
        return mkarray(a)

    def fromiter(self, it, dtype=float, count=-1):
        return mkarray(list(it), dtype)

    # reductions
    def sum(self, a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True, **k):
        if isinstance(a, types.GeneratorType):
            return builtins.sum(a)
        if isinstance(a, Num):
            return a
        if not isinstance(a, np.ndarray):
            a = mkarray(a)
        if _rdtype(a) != object:
            r = np.sum(a, axis=axis, keepdims=keepdims)
            return do_astype(np.asarray(r), float) if dtype is not None and is_float_dt(dtype) else wrap(r)
        if where is not True:
            a = self.where(where, a, 0)
        if dtype is not None and not is_float_dt(dtype):
            raise Unsupported('sum dtype')
        b = a.view(np.ndarray)
        if b.size == 0 or (axis is not None and b.shape[axis] == 0):
            sh = np.sum(np.zeros(b.shape), axis=axis, keepdims=keepdims)
            return self.zeros(np.shape(sh)) if np.shape(sh) else Num.const(0)
        r = np.add.reduce(b, axis=axis if axis is not None else tuple(range(b.ndim)), keepdims=keepdims)
        if self.enormous:
            # sums beyond the largest double are infinite
            r = np.frompyfunc(_overflow, 1, 1)(r)
        return wrapu(r)

    def nansum(self, a, axis=None, dtype=None, keepdims=False, **k):
        a = sarr(a)
        u = np.frompyfunc(lambda x: Num.const(0) if _nan(x) else x, 1, 1)
        return self.sum(u(a._b()).view(SArr), axis=axis, keepdims=keepdims)

    def prod(self, a, axis=None, **k):
        a = mkarray(a)
        return wrapu(plain(a).prod(axis=axis)) if a.size else Num.const(1)

    def mean(self, a, axis=None, keepdims=False, **k):
        return sarr(a).mean(axis=axis, keepdims=keepdims)
    average = mean

    def any(self, a, axis=None, out=None, keepdims=False, **k):
        if isinstance(a, (SymBool, Num)):
            return bool(a)
        a = mkarray(a) if not isinstance(a, np.ndarray) else a
        return a.any(axis=axis, keepdims=keepdims)

    def all(self, a, axis=None, out=None, keepdims=False, **k):
        if isinstance(a, (SymBool, Num)):
            return bool(a)
        a = mkarray(a) if not isinstance(a, np.ndarray) else a
        return a.all(axis=axis, keepdims=keepdims)

    def amax(self, a, axis=None, out=None, keepdims=False, **k):
        return self._ext(a, axis, keepdims, _el_max, np.amax)

    def amin(self, a, axis=None, out=None, keepdims=False, **k):
        return self._ext(a, axis, keepdims, _el_min, np.amin)
    max = amax
    min = amin

    def _ext(self, a, axis, keepdims, f, real):
        a = mkarray(a) if not isinstance(a, np.ndarray) else a
        if _rdtype(a) != object:
            return wrap(real(a, axis=axis, keepdims=keepdims))
        b = plain(a)
        u = np.frompyfunc(f, 2, 1)
        if axis is None:
            r = u.reduce(b.ravel())
            if keepdims:
                o = np.empty((1,) * b.ndim, dtype=object)
                o[...] = r
                return o.view(SArr)
            return r
        return wrapu(u.reduce(b, axis=axis, keepdims=keepdims))

    def _arg(self, a, axis, better):
        a = mkarray(a) if not isinstance(a, np.ndarray) else a
        b = plain(a)

        def one(v):
            k = 0
            for i in range(1, len(v)):
                if better(v[i], v[k]):
                    k = i
            return k
        if axis is None:
            return np.int64(one(b.ravel()))
        b = np.moveaxis(b, axis, -1)
        out = np.empty(b.shape[:-1], dtype=int)
        for ix in np.ndindex(*b.shape[:-1]):
            out[ix] = one(b[ix])
        return out if out.ndim else np.int64(out)

    def argmax(self, a, axis=None, **k):
        return self._arg(a, axis, lambda x, y: bool(x > y))

    def argmin(self, a, axis=None, **k):
        return self._arg(a, axis, lambda x, y: bool(x < y))

    def argsort(self, a, axis=-1, kind=None, **k):
        a = mkarray(a) if not isinstance(a, np.ndarray) else a
        if _rdtype(a) != object:
            return np.argsort(a, axis=axis)
        if a.ndim != 1:
            raise Unsupported('argsort')
        import functools
        xs = list(a._b())
        idx = sorted(range(len(xs)), key=functools.cmp_to_key(lambda i, j: -1 if xs[i] < xs[j] else (1 if xs[j] < xs[i] else 0)))
        return np.array(idx, dtype=int)

    def sort(self, a, axis=-1, **k):
        a = mkarray(a) if not isinstance(a, np.ndarray) else a
        if _rdtype(a) != object:
            return np.sort(a, axis=axis)
        return a[self.argsort(a)]

    def cumsum(self, a, axis=None, **k):
        return self._cum(a, axis, np.add, np.cumsum)

    def cumprod(self, a, axis=None, **k):
        return self._cum(a, axis, np.multiply, np.cumprod)

    def _cum(self, a, axis, u, real):
        a = mkarray(a) if not isinstance(a, np.ndarray) else a
        if _rdtype(a) != object:
            return real(a, axis=axis)
        b = plain(a)
        if axis is None:
            b, axis = b.ravel(), 0
        return wrapu(u.accumulate(b, axis=axis))

    def trace(self, a, *x, **k):
        a = mkarray(a) if not isinstance(a, np.ndarray) else a
        d = self.diag(a)
        return self.sum(d)

    def count_nonzero(self, a, axis=None, **k):
        a = mkarray(a) if not isinstance(a, np.ndarray) else a
        if _rdtype(a) == object:
            a = a.astype(bool)
        return np.count_nonzero(a, axis=axis)

    def nonzero(self, a):
        a = mkarray(a) if not isinstance(a, np.ndarray) else a
        return np.nonzero(a.astype(bool) if _rdtype(a) == object else a)

    def flatnonzero(self, a):
        a = mkarray(a) if not isinstance(a, np.ndarray) else a
        return np.flatnonzero(a.astype(bool) if _rdtype(a) == object else a)

    def argwhere(self, a):
        a = mkarray(a) if not isinstance(a, np.ndarray) else a
        return np.argwhere(a.astype(bool) if _rdtype(a) == object else a)

    def where(self, c, *xy):
        if isinstance(c, np.ndarray) and _rdtype(c) == object:
            c = c.astype(bool)
        if isinstance(c, SymBool):
            c = bool(c)
        if not xy:
            return np.where(c)
        x, y = xy
        if not hasnum(x) and not hasnum(y) and not isinstance(x, float) and not isinstance(y, float):
            return wrap(np.where(c, x, y))
        return wrapu(np.where(c, _asobj(x), _asobj(y)))

    # predicates
    def isclose(self, a, b, rtol=None, atol=None, equal_nan=False):
        return _isclose(a, b, rtol, atol, equal_nan)

    def allclose(self, a, b, rtol=None, atol=None, equal_nan=False):
        return _allclose(a, b, rtol, atol, equal_nan)

    def array_equal(self, a, b, equal_nan=False):
        return _array_equal(a, b, equal_nan)

    def array_equiv(self, a, b):
        return _array_equal(a, b)

    def isreal(self, x):
        if isinstance(x, np.ndarray):
            return np.ones(x.shape, dtype=bool)
        return not isinstance(x, complex)

    def isrealobj(self, x):
        return True

    def iscomplex(self, x):
        return np.zeros(np.shape(x), dtype=bool) if isinstance(x, np.ndarray) else False

    def iscomplexobj(self, x):
        return False

    def real(self, x):
        return x

    def imag(self, x):
        return x.imag

    def isscalar(self, x):
        return isinstance(x, Num) or np.isscalar(x)

    def issubdtype(self, a, b):
        return np.issubdtype(a, b)

    # arithmetic
    def dot(self, a, b, out=None):
        if not hasnum(a) and not hasnum(b) and isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
            return np.dot(a, b)
        if isinstance(a, Num) or isinstance(b, Num):
            return a * b
        return wrapu(_dot(self.asarray(a), self.asarray(b)))

    def matmul(self, a, b):
        return wrapu(_matmul(plain(self.asarray(a)), plain(self.asarray(b))))

    def vdot(self, a, b):
        return wrapu(_dot(self.ravel(a), self.ravel(b)))
    inner_ = None

    def inner(self, a, b):
        return wrapu(_dot(self.asarray(a), self.transpose(self.asarray(b))))

    def einsum(self, *a, **k):
        k.pop('optimize', None)
        if not isinstance(a[0], str):
            raise Unsupported('einsum')
        return wrapu(np.einsum(a[0], *[plain(sarr(self.asarray(x))) for x in a[1:]]))

    def outer(self, a, b):
        a, b = self.ravel(a), self.ravel(b)
        return a[:, None] * b[None, :]

    def kron(self, a, b):
        a, b = sarr(a), sarr(b)
        if a.ndim == 1 and b.ndim == 1:
            return self.ravel(self.outer(a, b))
        return wrapu(np.kron(plain(a), plain(b)))

    def divide(self, a, b, out=None, where=True):
        kw = {}
        if out is not None:
            kw['out'] = (out,)
            kw['where'] = where
        return ufunc_dispatch(np.true_divide, '__call__', (self.asarray(a), self.asarray(b)), kw)
    true_divide = divide

    def round(self, a, decimals=0, out=None):
        if isinstance(a, Num):
            return a.__round__(decimals)
        a = sarr(a)
        return np.frompyfunc(lambda x: x if isinstance(x, float) else Num.const(0) + x.__round__(decimals), 1, 1)(a._b()).view(SArr)
    around = round
    round_ = round

    def fix(self, a):
        if isinstance(a, Num):
            return a.fix()
        return np.frompyfunc(lambda x: num(x).fix(), 1, 1)(plain(sarr(a))).view(SArr) if isinstance(a, np.ndarray) else num(a).fix()
    trunc = fix

    def mod(self, a, b):
        if isinstance(a, Num):
            return a % b
        return ufunc_dispatch(np.remainder, '__call__', (self.asarray(a), b), {}) if not isinstance(a, (int, np.integer, np.ndarray)) or hasnum(a) else np.mod(a, b)

    def remainder(self, a, b):
        return self.mod(a, b)

    def nan_to_num(self, a, copy=True, nan=0.0, posinf=None, neginf=None):
        big = MAXIMUM
        self.enormous = True

        def f(x):
            if isinstance(x, float):
                return num(nan) if x != x else (big if x > 0 else -big)
            return x
        if isinstance(a, Num) or isinstance(a, float):
            return f(a)
        a = sarr(a)
        r = np.frompyfunc(f, 1, 1)(a._b())
        if not copy:
            a._b()[...] = r
            return a
        return r.view(SArr)

    def clip(self, a, lo, hi, out=None, **k):
        def f(x):
            if _nan(x):
                return x
            if lo is not None and bool(x < lo):
                return num(lo)
            if hi is not None and bool(x > hi):
                return num(hi)
            return x
        if not isinstance(a, np.ndarray):
            return f(num(a))
        if _rdtype(a) != object:
            return np.clip(a, lo, hi)
        return np.frompyfunc(f, 1, 1)(a._b()).view(SArr)

    def diff(self, a, **k):
        a = self.asarray(a)
        return a[1:] - a[:-1]

    # structure
    def unique(self, a, *x, **k):
        if hasnum(a):
            raise Unsupported('unique')
        return np.unique(a, *x, **k)

    def ndenumerate(self, a):
        a = self.asarray(a)
        for ix in np.ndindex(*a.shape):
            yield ix, a[ix]

    def bincount(self, x, weights=None, minlength=0):
        x = [toint(i) for i in np.ravel(unwrap(x))]
        n = builtins.max([i + 1 for i in x] + [minlength])
        if weights is None:
            return np.bincount(np.asarray(x, dtype=int), minlength=minlength)
        r = self.zeros(n)
        for i, w in zip(x, self.ravel(weights)):
            r[i] = r[i] + w
        return r

    class _Stacker:
        def __init__(self, cols):
            self.cols = cols

        def __getitem__(self, key):
            if not isinstance(key, tuple):
                key = (key,)
            if any(isinstance(k, (str, slice)) for k in key):
                return wrap((np.c_ if self.cols else np.r_)[tuple(unwrap(k) for k in key)])
            N_ = NPM['np']
            xs = [N_.asarray(k) for k in key]
            if self.cols:
                return N_.concatenate([x[:, None] if x.ndim == 1 else x for x in xs], axis=1)
            return N_.concatenate([N_.atleast_1d(x) for x in xs])

    r_, c_ = _Stacker(False), _Stacker(True)

    def fill_diagonal(self, a, v, wrap=False):
        for i in range(builtins.min(a.shape)):
            a[i, i] = v if not isinstance(v, np.ndarray) else v[i]

    def put(self, a, ind, v):
        a.flat[ind] = v

    def copyto(self, dst, src, where=True):
        if where is True:
            dst[...] = src
        else:
            m = np.broadcast_to(where, dst.shape)
            s = np.broadcast_to(_asobj(src), dst.shape)
            plain(dst)[m] = s[m]

    def apply_along_axis(self, f, axis, arr, *a, **k):
        arr = self.asarray(arr)
        b = np.moveaxis(plain(arr), axis, -1)
        rows = [f(b[ix].copy().view(SArr), *a, **k) for ix in np.ndindex(*b.shape[:-1])]
        rows = mkarray(rows)
        rows = plain(rows).reshape(b.shape[:-1] + rows.shape[1:])
        return wrap(np.moveaxis(rows, -1, axis)) if rows.ndim == b.ndim else wrap(rows)

    def diag_indices_from(self, a):
        return np.diag_indices(a.shape[0], a.ndim)

    def ix_(self, *args):
        return np.ix_(*[np.asarray(x, dtype=bool) if isinstance(x, np.ndarray) and _rdtype(x) == bool else np.asarray([int(y) for y in x], dtype=int) for x in args])

    def array_split(self, a, n, axis=0):
        return wrap(np.array_split(plain(a), n, axis))

    def vectorize(self, f, *a, **k):
        def g(*xs):
            return wrap(_num_u(np.frompyfunc(f, len(xs), 1)(*[plain(self.asarray(x)) for x in xs])))
        return g

    def errstate(self, **k):
        return np.errstate(**k)

    def setdiff1d(self, a, b, **k):
        return np.setdiff1d(np.asarray(a), np.asarray(b), **k) if np.size(a) else np.array([], dtype=int)

    def may_share_memory(self, *a):
        return np.may_share_memory(*[unwrap(x) for x in a])

    @property
    def float64(self):
        return np.float64


def _n(x):
    return num(x)


class UWrap:
    """a ufunc as module attribute: scalars, lists and SArr all go through the dispatcher"""

    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        if not builtins.any(hasnum(x) or isinstance(x, (float, np.floating)) for x in a) and not builtins.any(
                isinstance(x, np.ndarray) and _rdtype(x).kind == 'f' for x in a):
            if self.u in (np.log, np.exp, np.sqrt, np.log2, np.log10, np.cos, np.sin, np.true_divide):
                a = tuple(num(x) if isinstance(x, (int, np.integer)) else (_tosarr(x) if isinstance(x, np.ndarray) else x) for x in a)
            else:
                return wrap(self.u(*[unwrap(x) for x in a], **k))
        if builtins.any(isinstance(x, SymBool) for x in a):
            a = tuple(bool(x) if isinstance(x, SymBool) else x for x in a)
        if 'out' in k and not isinstance(k['out'], tuple):
            k['out'] = (k['out'],)
        return ufunc_dispatch(self.u, '__call__', a, k)

    def reduce(self, a, *x, **k):
        if x:
            k['axis'] = x[0]
        return ufunc_dispatch(self.u, 'reduce', (NPM['np'].asarray(a),), k)

    def accumulate(self, a, *x, **k):
        return ufunc_dispatch(self.u, 'accumulate', (NPM['np'].asarray(a),) + x, k)

    def outer(self, a, b):
        a, b = NPM['np'].ravel(a), NPM['np'].ravel(b)
        return self(a[:, None], b[None, :])

    def at(self, a, ind, *v):
        if len(v) != 1 or self.u not in (np.add, np.subtract, np.multiply, np.maximum, np.minimum):
            raise Unsupported('ufunc.at')
        ix = ind if isinstance(ind, tuple) else (ind,)
        ix = [np.asarray([toint(y) for y in np.ravel(unwrap(x))]) if not np.isscalar(x) else np.asarray([x]) for x in ix]
        m = builtins.max(len(x) for x in ix)
        ix = [np.broadcast_to(x, (m,)) for x in ix]
        vs = NPM['np'].asarray(v[0])
        for j in range(m):
            q = tuple(int(x[j]) for x in ix)
            a[q] = self(a[q], vs if getattr(vs, 'ndim', 0) == 0 else vs.ravel()[j])


def fixshape(s):
    if isinstance(s, (tuple, list)):
        return tuple(toint(x) for x in s)
    return toint(s)


# --------------------------------------------------------------- linear algebra
def _rows_poly(A):
    """matrix of Num -> (polynomial matrix, row denominators)"""
    n, m = A.shape
    rows, dens = [], []
    for i in range(n):
        L = {}
        for j in range(m):
            x = A[i, j]
            if isinstance(x, float):
                raise Unsupported('non-finite matrix')
            for f, e in (x.d or {}).items():
                if L.get(f, 0) < e:
                    L[f] = e
        rows.append([S.facmul(A[i, j].n, A[i, j].d or {}, L) for j in range(m)])
        dens.append(L)
    return rows, dens


def _pdet(M, rows, cols, memo):
    """Laplace expansion of the minor on rows[k:], given column tuple"""
    if not cols:
        return {0: 1}
    key = (rows[0], cols)
    r = memo.get(key)
    if r is not None:
        return r
    t = {}
    s = 1
    i = rows[0]
    for q, j in enumerate(cols):
        a = M[i][j]
        if a:
            sub = _pdet(M, rows[1:], cols[:q] + cols[q + 1:], memo)
            if sub:
                t = S.padd(t, S.pmul(a, sub), 1 if q % 2 == 0 else -1)
    memo[key] = t
    return t


def _det_poly(M):
    n = len(M)
    return _pdet(M, tuple(range(n)), tuple(range(n)), {})


def _mat(a):
    a = sarr(a)
    u = np.frompyfunc(num, 1, 1)
    return u(a._b()) if a.size else a._b()


def inverse(A):
    """exact inverse of a square object matrix; LinAlgError when singular"""
    n = A.shape[0]
    M, dens = _rows_poly(A)
    if n > 6 and not (n <= 9 and max(len(e) for r in M for e in r) <= 8 and sum(any(set(e) - {0} for e in r) for r in M) > 6):
        return _inverse_schur(M, dens)
    D = _det_poly(M)
    d = Num(D)
    if not bool(d != 0):
        raise np.linalg.LinAlgError('Singular matrix')
    R = np.empty((n, n), dtype=object)
    allr = tuple(range(n))
    for j in range(n):          # cofactor of (j, i)
        rows = tuple(r for r in allr if r != j)
        memo = {}
        for i in range(n):
            cols = tuple(c for c in allr if c != i)
            c = _pdet(M, rows, cols, memo) if n > 1 else {0: 1}
            if (i + j) % 2:
                c = S.pscale(c, -1)
            # column j of the inverse is scaled by the row denominator of row j
            x = Num(S.facmul(c, {}, dens[j]))
            R[i, j] = x / d if x.n else Num.const(0)
    return R


def _inverse_schur(M, dens):
    """rows without symbols are eliminated with fractions, the others by the formula of the small case"""
    n = len(M)
    const = [i for i in range(n) if all(set(e) <= {0} for e in M[i])]
    symb = [i for i in range(n) if i not in const]
    if len(symb) > 6:
        raise Unsupported('matrix too large')
    rows = {i: ([Fraction(e.get(0, 0)) for e in M[i]], [Fraction(int(j == i)) for j in range(n)]) for i in const}
    piv = {}
    for i in const:
        a, b = rows[i]
        c = next((j for j in range(n) if j not in piv.values() and a[j] != 0), None)
        if c is None:
            raise np.linalg.LinAlgError('Singular matrix')
        q = a[c]
        a, b = [x / q for x in a], [x / q for x in b]
        rows[i] = a, b
        piv[i] = c
        for k in const:
            if k != i and rows[k][0][c] != 0:
                f = rows[k][0][c]
                rows[k] = [x - f * y for x, y in zip(rows[k][0], a)], [x - f * y for x, y in zip(rows[k][1], b)]
    free = [j for j in range(n) if j not in piv.values()]

    def lin(base, i, pick):
        for k in const:
            v = pick(k)
            if v != 0 and M[i][piv[k]]:
                base = S.padd(base, S.pscale(M[i][piv[k]], cf(v)), -1)
        return base
    cf = lambda v: v.numerator if v.denominator == 1 else v
    Sm = [[lin(M[i][f], i, lambda k: rows[k][0][f]) for f in free] for i in symb]
    Bm = [[lin({0: 1} if i == j else {}, i, lambda k: rows[k][1][j]) for j in range(n)] for i in symb]
    m = len(symb)
    D = _det_poly(Sm) if m else {0: 1}
    d = Num(D)
    if not bool(d != 0):
        raise np.linalg.LinAlgError('Singular matrix')
    allr = tuple(range(m))
    inv = [[None] * m for _ in range(m)]
    for j in range(m):
        memo = {}
        for i in range(m):
            c = _pdet(Sm, tuple(r for r in allr if r != j), tuple(c for c in allr if c != i), memo) if m > 1 else {0: 1}
            inv[i][j] = S.pscale(c, -1) if (i + j) % 2 else c
    X = [[None] * n for _ in range(n)]
    for j in range(n):
        for a, f in enumerate(free):
            t = {}
            for b in range(m):
                if inv[a][b] and Bm[b][j]:
                    t = S.padd(t, S.pmul(inv[a][b], Bm[b][j]))
            X[f][j] = t                                  # numerators over D
        for k in const:
            t = S.pscale(D, cf(rows[k][1][j]))
            for f in free:
                v = rows[k][0][f]
                if v != 0 and X[f][j]:
                    t = S.padd(t, S.pscale(X[f][j], cf(v)), -1)
            X[piv[k]][j] = t
    R = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            R[i, j] = Num(S.facmul(X[i][j], {}, dens[j])) / d if X[i][j] else Num.const(0)
    return R


def solve_exact(A, B):
    R = inverse(A)
    return _dot(R, B)


class NoEig(Unsupported):
    pass


class Modulus:
    """a complex number of which only the modulus is known"""

    def __init__(self, m):
        self.m = m

    def __abs__(self):
        return self.m

    def __getattr__(self, n):
        raise Unsupported('complex number')


# spectra that a harness derived from the way it built its matrix: (characteristic polynomial, eigenvalues);
# eigvals hands them out for matrices that provably have this characteristic polynomial
SPECTRA = []


SYSTEMS = []


def known_system(A):
    """eigenvalues and eigenvectors that a harness derived likewise, for matrices that provably have them"""
    n = A.shape[0]
    for values, V in SYSTEMS:
        if len(values) == n:
            W = mkarray(V, float)
            X = _dot(A, W)
            if all(not (X[i, j] - values[j] * W[i, j]).n for i in range(n) for j in range(n)):
                return mkarray(values, float), W
    return None


def known_spectrum(A):
    n = A.shape[0]
    for char, values in SPECTRA:
        if len(values) == n and all(not (N_det(mkarray([[Num.const(x if i == j else 0) - A[i, j] for j in range(n)] for i in range(n)], float)) - Num.const(0) - char(Num.const(x))).n for x in range(n)):
            return eigarray([Modulus(v[0]) if isinstance(v, tuple) else v for v in values])
    return None


def eigarray(xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a.view(SArr)


def N_det(A):
    return NPM['np'].linalg.det(A)


class Token:
    """result of a computation outside the encoding; any use stops the path"""

    def __getattribute__(self, n):
        if n in ('__class__', '__deepcopy__', '__copy__'):
            return object.__getattribute__(self, n)
        raise Unsupported('eigendecomposition')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def lazy_rdl(f):
    import functools

    @functools.wraps(f)
    def g(*a, **k):
        try:
            return f(*a, **k)
        except NoEig:
            return (Token(), Token(), Token())
    return g


class LA(types.ModuleType):
    def __init__(self):
        super().__init__('numpy.linalg')
        self.LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        getattr(np.linalg, name)

        def unsupported(*a, **k):
            raise Unsupported(f'linalg.{name}')
        return unsupported

    def solve(self, a, b):
        a, b = _mat(a), _mat(b)
        if a.ndim != 2 or a.shape[0] != a.shape[1]:
            raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
        return wrapu(solve_exact(a, b))

    def inv(self, a):
        a = _mat(a)
        if a.ndim != 2 or a.shape[0] != a.shape[1]:
            raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
        return wrapu(inverse(a))

    def det(self, a):
        a = _mat(a)
        M, dens = _rows_poly(a)
        r = Num(_det_poly(M))
        for L in dens:
            for f, e in L.items():
                r = r / Num(S.REG.factors[f]) ** e
        return r

    def matrix_power(self, a, k):
        k = toint(k)
        if _rdtype(a) != object and _rdtype(a).kind in 'iub':
            return np.linalg.matrix_power(a, k)
        a = _mat(a)
        if k < 0:
            a = inverse(a)
            k = -k
        if k == 0:
            return NPM['np'].eye(a.shape[0])
        if k > 40 and not HOOK.get('bigpow'):
            # only the sign pattern matters for large powers in this code; keep values when small
            return bigpow(a, k)
        r = None
        b = a
        while k:
            if k & 1:
                r = b if r is None else _dot(r, b)
            k >>= 1
            if k:
                b = _dot(b, b)
        return wrapu(r)

    def norm(self, x, ord=None, axis=None, keepdims=False):
        x = sarr(x)
        if axis is not None:
            raise Unsupported('norm axis')
        npx = NPM['np']
        if x.ndim == 1:
            if ord is None or ord == 2:
                return npx.sum(x * x).sqrt()
            if ord == 1:
                return npx.sum(npx.abs(x))
            if ord == np.inf:
                return npx.amax(npx.abs(x))
        else:
            if ord is None or ord == 'fro':
                return npx.sum(x * x).sqrt()
            if ord == np.inf:
                return npx.amax(npx.sum(npx.abs(x), axis=1))
            if ord == 1:
                return npx.amax(npx.sum(npx.abs(x), axis=0))
        raise Unsupported('norm')

    def multi_dot(self, xs):
        r = xs[0]
        for x in xs[1:]:
            r = NPM['np'].dot(r, x)
        return r

    def lstsq(self, a, b, rcond=None):
        """least squares: any minimiser (minimum norm when the rows are independent)"""
        if rcond is not None and float(rcond) > 1e-12:
            raise Unsupported('lstsq that cuts off singular values')
        A, B = _mat(a), _mat(b)
        m, n = A.shape
        At = A.T
        if m <= n:
            # full row rank: x = A' (A A')^-1 b
            try:
                x = _dot(At, solve_exact(_dot(A, At), B))
                return (wrapu(x), mkarray([], float), m, None)
            except np.linalg.LinAlgError:
                raise Unsupported('rank-deficient lstsq')
        try:
            x = solve_exact(_dot(At, A), _dot(At, B))
        except np.linalg.LinAlgError:
            raise Unsupported('rank-deficient lstsq')
        return (wrapu(x), mkarray([], float), n, None)

    def eig(self, a):
        """right eigenvectors: concrete real spectrum, 2x2 stochastic, or triangular with distinct eigenvalues"""
        if HOOK.get('eig') is not None:
            return HOOK['eig'](a)
        A = _mat(a)
        n = A.shape[0]
        if all(A[i, j].is_const() for i in range(n) for j in range(n)):
            w, v = np.linalg.eig(np.array([[float(A[i, j].cval()) for j in range(n)] for i in range(n)]))
            if np.iscomplexobj(w):
                raise NoEig('complex eigenvalues')
            return mkarray([Fraction(float(x)) for x in w], float), mkarray([[Fraction(float(x)) for x in r] for r in v], float)
        one, zero = Num.const(1), Num.const(0)
        if n == 2 and all(not S.addn(A[i, 0] + A[i, 1], one, -1).n for i in range(2)):
            x, y = A[0, 1], A[1, 0]
            # P (x, -y)' = (1 - x - y) (x, -y)'
            if bool(x + y > 0):
                return mkarray([one, one - x - y], float), mkarray([[one, x], [one, -y]], float)
            return mkarray([one, one], float), mkarray([[one, zero], [zero, one]], float)
        if SYSTEMS:
            r = known_system(A)
            if r is not None:
                return r
        up = all(not A[i, j].n for i in range(n) for j in range(i))
        lo = all(not A[i, j].n for i in range(n) for j in range(i + 1, n))
        if not (up or lo):
            raise NoEig('eig')
        ws = [A[i, i] for i in range(n)]
        for i in range(n):
            for j in range(i):
                if not bool(ws[i] != ws[j]):
                    raise NoEig('repeated eigenvalues')
        V = np.empty((n, n), dtype=object)
        for c in range(n):
            V[:, c] = [zero] * n
            V[c, c] = one
            for i in (range(c - 1, -1, -1) if up else range(c + 1, n)):
                s = zero
                for k in (range(i + 1, c + 1) if up else range(c, i)):
                    s = s + A[i, k] * V[k, c]
                V[i, c] = s / (ws[c] - ws[i])
        return mkarray(ws, float), wrapu(V)

    def eigvals(self, a):
        """eigenvalues: concrete matrices, triangular ones, stochastic ones up to 3x3"""
        A = _mat(a)
        n = A.shape[0]
        if all(A[i, j].is_const() for i in range(n) for j in range(n)):
            w = np.linalg.eigvals(np.array([[float(A[i, j].cval()) for j in range(n)] for i in range(n)]))
            if np.iscomplexobj(w):
                return eigarray([Modulus(Num.const(Fraction(float(abs(x))))) if x.imag else Num.const(Fraction(float(x.real))) for x in w])
            return mkarray([Fraction(float(x)) for x in w], float)
        one = Num.const(1)
        if all(not A[i, j].n for i in range(n) for j in range(i)) or all(not A[i, j].n for i in range(n) for j in range(i + 1, n)):
            return mkarray([A[i, i] for i in range(n)], float)
        if SPECTRA:
            w = known_spectrum(A)
            if w is not None:
                return w
        if n > 3 or any(S.addn(sum(A[i, 1:], A[i, 0]), one, -1).n for i in range(n)):
            raise Unsupported('linalg.eigvals')
        if n == 2:
            return mkarray([one, A[0, 0] - A[1, 0]], float)
        # (x - 1)(x^2 - tx + d)
        t = A[0, 0] + A[1, 1] + A[2, 2] - one
        d = N_det(A)
        disc = t * t - d * 4
        if bool(disc >= 0):
            r = disc.sqrt()
            return mkarray([one, (t + r) / 2, (t - r) / 2], float)
        m = Modulus(d.sqrt())
        return eigarray([one, m, m])

    def pinv(self, a, *x, **k):
        A = _mat(a)
        m, n = A.shape
        At = A.T
        try:
            if m <= n:
                return wrapu(_dot(At, inverse(_dot(A, At))))
            return wrapu(_dot(inverse(_dot(At, A)), At))
        except np.linalg.LinAlgError:
            raise Unsupported('rank-deficient pinv')

    def matrix_rank(self, a, tol=None, hermitian=False, **k):
        A = _mat(a)
        m, n = A.shape
        if tol is not None and not (isinstance(tol, (int, float)) and tol == 0):
            # the singular values above tol: the positive eigenvalues of A'A - tol^2, by Sylvester's law of inertia
            q = num(tol)
            if bool(q < 0):
                return min(m, n)
            B = _dot(A.T, A) if m >= n else _dot(A, A.T)
            B = [[B[i, j] - (q * q if i == j else 0) for j in range(B.shape[1])] for i in range(B.shape[0])]
            r = 0
            while B:
                p = num(B[0][0])
                if bool(p == 0):
                    raise Unsupported('matrix_rank on a pivot of zero')
                r += bool(p > 0)
                B = [[B[i][j] - B[i][0] * B[0][j] / p for j in range(1, len(B))] for i in range(1, len(B))]
            return r
        M, _ = _rows_poly(A)
        for r in range(min(m, n), 0, -1):
            for rs in itertools.combinations(range(m), r):
                for cs in itertools.combinations(range(n), r):
                    d = _pdet([[M[i][j] for j in cs] for i in rs], tuple(range(r)), tuple(range(r)), {})
                    if d and bool(Num(d) != 0):
                        return r
        return 0


def bigpow(a, k):
    """large powers of a non-negative matrix: zero pattern is exact, positive entries are fresh unknowns"""
    n = a.shape[0]
    if all(x.is_const() for x in a.flat):
        # without unknowns: the doubles that the code works with (small values may vanish)
        r = np.linalg.matrix_power(np.array([[float(x.cval()) for x in row] for row in a]), k)
        return mkarray([[Fraction(float(x)) for x in row] for row in r], float)
    pat = np.zeros((n, n), dtype=int)
    for i in range(n):
        for j in range(n):
            if not bool(a[i, j] >= 0):
                raise Unsupported('matrix_power')
            pat[i, j] = 1 if bool(a[i, j] > 0) else 0
    r = None
    b = pat
    while k:
        if k & 1:
            r = b if r is None else ((r @ b) > 0).astype(int)
        k >>= 1
        if k:
            b = ((b @ b) > 0).astype(int)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            if r[i, j]:
                v = S.CUR.fresh('pow', Fraction(1, 10 ** 6), 1)
                out[i, j] = v
            else:
                out[i, j] = Num.const(0)
    return out.view(SArr)


# --------------------------------------------------------------- scipy
def nnls(A, b, maxiter=None, **k):
    """contract: exact non-negative solution; with dependent columns the one of smallest support
    that the active-set method (which only activates columns with positive gradient) reaches"""
    A, b = _mat(A), _mat(b)
    m, n = A.shape
    zero = Num.const(0)
    if m != n:
        raise Unsupported('nnls shape')
    try:
        x = solve_exact(A, b)
        xs = list(x)
        if all(bool(v >= 0) for v in xs):
            return wrapu(np.array(xs + [None], dtype=object)[:-1]), zero
        raise Unsupported('nnls with negative unconstrained solution')
    except np.linalg.LinAlgError:
        pass
    if all(bool(v == 0) for v in b):
        return mkarray([0] * n, float), zero
    for r in range(1, n):
        for sup in itertools.combinations(range(n), r):
            # rows that involve the support or have b != 0 must be satisfied exactly
            sub = A[:, list(sup)]
            for rows in itertools.combinations(range(m), r):
                try:
                    y = solve_exact(sub[list(rows), :], b[list(rows)])
                except np.linalg.LinAlgError:
                    continue
                ok = True
                for i in range(m):
                    t = zero
                    for q in range(r):
                        t = t + sub[i, q] * y[q]
                    if not bool(t == b[i]):
                        ok = False
                        break
                if ok and all(bool(v >= 0) for v in y):
                    x = np.empty(n, dtype=object)
                    x[...] = zero
                    for q, j in enumerate(sup):
                        x[j] = y[q]
                    return wrapu(x), zero
                break
    raise Unsupported('nnls singular')


def _norm_cdf(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


def _chi2cdf(x, k):
    import scipy.stats
    return float(scipy.stats.chi2.cdf(x, k))


S.register_fn('ncdf', _norm_cdf)
S.register_fn('chi2cdf', _chi2cdf)


def _map(f):
    def g(x, *a, **k):
        if isinstance(x, np.ndarray):
            return np.frompyfunc(lambda v: f(v, *a, **k), 1, 1)(plain(sarr(x))).view(SArr)
        return f(x, *a, **k)
    return g


def _cdf(x):
    x = num(x)
    if isinstance(x, float):
        return x if x != x else Num.const(1 if x > 0 else 0)
    if x.is_const() and x.cval() == 0:
        return Num.const(Fraction(1, 2))
    return S.opaque('ncdf', x)


def _pdf(x):
    x = num(x)
    if isinstance(x, float):
        return x if x != x else Num.const(0)
    r = (x * x * Fraction(-1, 2)).exp()
    return r / Num.const(Fraction(math.sqrt(2 * math.pi)))


class _Norm:
    @staticmethod
    def pdf(x, loc=0, scale=1):
        if isinstance(scale, Num) or isinstance(loc, Num) or isinstance(x, (Num, np.ndarray)):
            y = (x - loc) / scale
            if isinstance(scale, float) and not scale < math.inf or isinstance(scale, Num) and not bool(scale > 0):
                return float('nan') if isinstance(scale, Num) or scale != scale else _map(_pdf)(y) * 0
            return _map(_pdf)(y) / scale
        import scipy.stats
        r = float(scipy.stats.norm.pdf(x, loc, scale))
        return r if r != r or r == math.inf else Num.const(Fraction(r))

    @staticmethod
    def cdf(x, loc=0, scale=1):
        if not (isinstance(loc, int) and loc == 0 and isinstance(scale, int) and scale == 1):
            x = (x - loc) / scale
        return _map(_cdf)(x)

    @staticmethod
    def sf(x, loc=0, scale=1):
        if not (isinstance(loc, int) and loc == 0 and isinstance(scale, int) and scale == 1):
            x = (x - loc) / scale
        return _map(lambda v: 1 - _cdf(v))(x)

    @staticmethod
    def ppf(q):
        def one(v):
            v = num(v)
            if isinstance(v, float) or not v.is_const():
                raise Unsupported('norm.ppf')
            import scipy.stats
            r = float(scipy.stats.norm.ppf(float(v.cval())))
            return r if r != r or r in (math.inf, -math.inf) else Num.const(Fraction(r))
        return _map(one)(q)

    def __getattr__(self, n):
        raise Unsupported(f'norm.{n}')


def _chi(x, k):
    x = num(x)
    if isinstance(x, float):
        return x if x != x else Num.const(1 if x > 0 else 0)
    k = num(k)
    if x.is_const() and x.cval() <= 0:
        if k.is_const() and k.cval() <= 0:
            return float('nan')
        return Num.const(0)
    if k.is_const() and k.cval() <= 0:
        return float('nan')
    if x.is_const() and k.is_const():
        return Num.const(Fraction(_chi2cdf(float(x), float(k))))
    if bool(x <= 0):
        return Num.const(0)
    return S.opaque('chi2cdf', x, k)


def _chisquare(f_obs, f_exp=None, ddof=0, axis=0):
    o = [num(v) for v in plain(sarr(f_obs)).ravel()]
    if f_exp is not None:
        e = [num(v) for v in plain(sarr(f_exp)).ravel()]
    else:
        m = builtins.sum(o, Num.const(0)) / len(o)
        e = [m] * len(o)
    r = Num.const(0)
    for x, y in zip(o, e):
        r = r + (x - y) ** 2 / y
    p = _chi(r, len(o) - 1 - ddof)
    return r, (p if isinstance(p, float) else 1 - p)


class _Chi2:
    @staticmethod
    def cdf(x, df):
        return _chi(x, df)

    @staticmethod
    def sf(x, df):
        r = _chi(x, df)
        return r if isinstance(r, float) else 1 - r

    def __getattr__(self, n):
        raise Unsupported(f'chi2.{n}')


def _logpmf(k, n, p):
    k, n, p = toint(k), toint(n), num(p)
    c = math.comb(n, k)
    r = _powz(p, k) * _powz(1 - p, n - k) * c
    return r


def _powz(x, k):
    return Num.const(1) if k == 0 else x ** k


class _Binom:
    @staticmethod
    def pmf(k, n, p):
        if isinstance(k, np.ndarray):
            return mkarray([_logpmf(x, n, p) for x in k], float)
        return _logpmf(k, n, p)

    @staticmethod
    def logpmf(k, n, p):
        if isinstance(k, np.ndarray):
            return mkarray([num(_logpmf(x, n, p)).log() for x in k], float)
        return num(_logpmf(k, n, p)).log()

    def __getattr__(self, n):
        raise Unsupported(f'binom.{n}')


class Sub(types.ModuleType):
    def __init__(self, name, real=None, **k):
        super().__init__(name)
        self._real = real
        for a, b in k.items():
            setattr(self, a, b)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if self._real is not None:
            v = getattr(self._real, n)
            if isinstance(v, type):
                return v

        def unsupported(*a, **k):
            raise Unsupported(f'{self.__name__}.{n}')
        return unsupported


def _hooked(name):
    """a routine that a harness replaces by its contract"""
    def g(*a, **k):
        if HOOK.get(name) is None:
            raise Unsupported(name)
        return HOOK[name](*a, **k)
    return g


def scipy_shim():
    import scipy.sparse
    import scipy.special
    sp = Sub('scipy')
    sp.optimize = Sub('scipy.optimize', nnls=nnls, minimize=_hooked('minimize'))
    sp.stats = Sub('scipy.stats', norm=_Norm(), chi2=_Chi2(), binom=_Binom(), chisquare=_chisquare)
    sp.integrate = Sub('scipy.integrate', quad=_hooked('quad'))
    sp.linalg = Sub('scipy.linalg', inv=lambda a, **k: NPM['np'].linalg.inv(a), solve=lambda a, b, **k: NPM['np'].linalg.solve(a, b))
    sp.sparse = scipy.sparse
    sp.special = Sub('scipy.special', comb=lambda n, k, exact=False, **kw: math.comb(toint(n), toint(k)) if exact else Num.const(math.comb(toint(n), toint(k))))
    return sp


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__('math')
        self.inf, self.nan = math.inf, math.nan
        self.pi, self.e = Num.const(Fraction(math.pi)), Num.const(Fraction(math.e))
        self.ceil, self.floor, self.trunc, self.comb, self.factorial, self.isqrt = math.ceil, math.floor, math.trunc, math.comb, math.factorial, math.isqrt

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        f = getattr(math, n)

        def g(*a):
            if builtins.any(isinstance(x, Num) and not x.is_const() for x in a):
                raise Unsupported(f'math.{n}')
            r = f(*[(int(x.cval()) if x.cval().denominator == 1 and n in ('gcd', 'lcm') else float(x.cval())) if isinstance(x, Num) else x for x in a])
            return num(r) if isinstance(r, float) else r
        return g

    def gcd(self, *a):
        return math.gcd(*[toint(x) for x in a])

    def lcm(self, *a):
        return math.lcm(*[toint(x) for x in a])

    def isnan(self, x):
        return _el_isnan(num(x))

    def isinf(self, x):
        return _el_isinf(num(x))

    def isfinite(self, x):
        return _el_isfinite(num(x))

    def isclose(self, a, b, *, rel_tol=None, abs_tol=0):
        a, b = num(a), num(b)
        if isinstance(a, float) or isinstance(b, float):
            return isinstance(a, float) and isinstance(b, float) and a == b
        rel = Num.const(Fraction(1, 10 ** 9)) if rel_tol is None else num(rel_tol)
        d = abs(a - b)
        m = abs(a) if bool(abs(a) >= abs(b)) else abs(b)
        return bool(d <= rel * m) or bool(d <= num(abs_tol))

    def log(self, x, *b):
        r = _el_log(num(x))
        if isinstance(r, float):
            if num(x) == 0 or not (isinstance(num(x), float)):
                raise ValueError('math domain error')
        return r if not b else r / num(b[0]).log()

    def log2(self, x):
        return num(x).log2()

    def exp(self, x):
        return _el_exp(num(x))

    def sqrt(self, x):
        x = num(x)
        if bool(x < 0):
            raise ValueError('math domain error')
        return x.sqrt()

    def fsum(self, it):
        return builtins.sum(it, Num.const(0))

    def prod(self, it, start=1):
        for x in it:
            start = start * x
        return start

    def pow(self, a, b):
        return num(a) ** b

    def fabs(self, a):
        return abs(num(a))


# --------------------------------------------------------------- random numbers
class RND(types.ModuleType):
    def __init__(self):
        super().__init__('numpy.random')
        self.mtrand = MTR()

    @property
    def RandomState(self):
        return SymRandomState

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in ('default_rng', 'Generator'):
            return lambda *a, **k: SymRandomState(0)
        return getattr(np.random, n)


class MTR(types.ModuleType):
    def __init__(self):
        super().__init__('numpy.random.mtrand')

    @property
    def _rand(self):
        return SymRandomState(None)

    @property
    def RandomState(self):
        return SymRandomState


class LazyPerm:
    """a random permutation whose elements are decided when they are looked at"""

    def __init__(self, n, choose):
        self.n, self.choose = n, choose
        self.out, self.rest = [], list(range(n))

    def force(self, k):
        while len(self.out) < min(k, self.n):
            self.out.append(self.rest.pop(self.choose(len(self.rest))))
        return self.out

    def __len__(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    def __getitem__(self, ix):
        if isinstance(ix, slice):
            r = range(self.n)[ix]
            self.force(max(r, default=-1) + 1)
            return np.array([self.out[i] for i in r], dtype=int)
        if isinstance(ix, (int, np.integer)):
            i = range(self.n)[ix]
            return np.int64(self.force(i + 1)[i])
        return np.array(self)[ix]

    def __array__(self, dtype=None, copy=None):
        return np.array(self.force(self.n), dtype=dtype or int)

    def __iter__(self):
        for i in range(self.n):
            yield self[i]

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        return getattr(np.array(self), a)


class SymRandomState(np.random.RandomState):
    """every documented outcome of the generator is possible"""

    def __init__(self, seed=None):
        super().__init__(0)

    def _u(self, size):
        t = HOOK['T']
        if size is None:
            return t.draw_uniform()
        size = fixshape(size)
        shape = size if isinstance(size, tuple) else (size,)
        r = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            r[ix] = t.draw_uniform()
        return t.wrap_array(r)

    def random(self, size=None):
        return self._u(size)
    random_sample = random

    def rand(self, *shape):
        return self._u(shape if shape else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._u(size)

    def randint(self, low, high=None, size=None, dtype=int):
        if size is not None:
            raise Unsupported('randint size')
        lo, hi = (0, low) if high is None else (low, high)
        lo, hi = toint(lo), toint(hi)
        if hi <= lo:
            raise ValueError('low >= high')
        return lo + HOOK['T'].draw_index(hi - lo)

    def integers(self, low, high=None, size=None, endpoint=False, **k):
        lo, hi = (0, low) if high is None else (low, high)
        return self.randint(lo, hi + 1 if endpoint else hi, size)

    def permutation(self, x):
        if isinstance(x, np.ndarray):
            ix = self.permutation(x.shape[0])
            return x[ix]
        n = toint(x)
        if n < 0:
            raise ValueError('negative dimensions are not allowed')
        return HOOK['T'].draw_permutation(n)

    def shuffle(self, x):
        ix = self.permutation(len(x))
        if isinstance(x, list):
            x[:] = [x[i] for i in ix]
        else:
            x[...] = x[ix].copy()

    def choice(self, a, size=None, replace=True, p=None):
        pop = list(range(toint(a))) if isinstance(a, (int, np.integer, SInt)) else list(a)
        if p is not None:
            ps = list(plain(NPM_asarray(p)).ravel()) if HOOK['T'].symbolic else [float(x) for x in np.asarray(p).ravel()]
            if len(ps) != len(pop):
                raise ValueError("'a' and 'p' must have same size")
            HOOK['T'].check_choice_p(ps)
        else:
            ps = None
        shape = () if size is None else (fixshape(size) if isinstance(fixshape(size), tuple) else (fixshape(size),))
        cnt = int(np.prod(shape)) if shape else 1
        if not replace and cnt > len(pop):
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        out = []
        for _ in range(cnt):
            k = HOOK['T'].draw_choice(len(pop), ps, [i for i in range(len(pop)) if replace or pop[i] not in out])
            out.append(pop[k])
        if size is None:
            return out[0]
        return np.array(out).reshape(shape)

    def _outcomes(self, size):
        d = HOOK['T'].outcomes
        NPM['np'].enormous = True
        if d is None:
            raise Unsupported('draws of a distribution')
        shape = fixshape(size) if size is not None else ()
        if shape != (len(d), len(d[0])):
            raise Unsupported('draws of a distribution')
        return HOOK['T'].arr(d)

    def pareto(self, a, size=None):
        return self._outcomes(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._outcomes(size)

    def logistic(self, loc=0.0, scale=1.0, size=None):
        return self._outcomes(size)

    def beta(self, a, b, size=None):
        return 1.0 - self._u(size)                # the support of the distribution does not contain 0


def NPM_asarray(p):
    return NPM['np'].asarray(p)


for _m in ('random', 'random_sample', 'rand', 'uniform', 'randint', 'permutation', 'shuffle', 'choice', 'beta', 'pareto', 'normal', 'logistic'):
    getattr(SymRandomState, _m).__doc__ = getattr(np.random.RandomState, _m).__doc__
SymRandomState.integers.__doc__ = ''

NPM = {}
NPM['np'] = NP()


def _num_array_ufunc(self, ufunc, method, *inputs, **kwargs):
    return ufunc_dispatch(ufunc, method, inputs, kwargs)


Num.__array_ufunc__ = _num_array_ufunc
