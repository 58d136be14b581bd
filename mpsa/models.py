"""Models of builtins and third-party modules for the interpreter; loading of the analysed sources."""
import ast
import collections
import collections.abc
import copy
import functools
import itertools
import math
import numbers
import operator
import os
import re
import string
import textwrap
import types
import warnings
import abc
import contextlib
import numpy as real
from . import dims as D
from . import npm, tn
from .dims import Dim, Unsupported, AnalysisSignal
from .npm import Arr, Sca, AbsBool
from .interp import Interp, IFunc, Mod, src, TR

numbers.Integral.register(Dim)


# ---------------------------------------------------------------------------------------------
# builtins
# ---------------------------------------------------------------------------------------------
class _NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, real.ndarray) or (isinstance(x, Arr) and not isinstance(x, Sca))

    def __subclasscheck__(cls, c):
        return issubclass(c, (real.ndarray, Arr))


class ndarray(metaclass=_NDMeta):
    def __new__(cls, *a, **k):
        raise Unsupported('np.ndarray constructor')


ndarray.__name__ = 'ndarray'


def b_isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(b_isinstance(x, c) for c in cls)
    if isinstance(x, Dim):
        if cls in (int, object, numbers.Number, numbers.Complex, numbers.Real, numbers.Rational, numbers.Integral):
            return True
        return False
    if isinstance(x, AbsBool):
        return cls in (bool, int, object) or cls is real.bool_
    if isinstance(x, Sca):
        if cls is object:
            return True
        try:
            return issubclass(x.dtype.type, cls)
        except TypeError:
            raise Unsupported('isinstance')
    if isinstance(cls, Mod):
        raise src(TypeError('isinstance() arg 2 must be a type'))
    if isinstance(x, IFunc) and cls in (types.FunctionType, types.LambdaType):
        return True
    if isinstance(x, Arr):
        if cls in (ndarray, object):
            return True
        if cls in (collections.abc.Iterable, collections.abc.Sized, collections.abc.Container):
            return True
        return False
    return isinstance(x, cls)


def b_len(x):
    try:
        return len(x)
    except npm.SymLen as e:
        return e.dim


def b_hasattr(o, name):
    if isinstance(o, Sca):
        if name in ('__iter__', '__len__'):
            return False
        return hasattr(o.dtype.type, name)
    if isinstance(o, Dim):
        return hasattr(int, name)
    if isinstance(o, Arr):
        return hasattr(real.ndarray, name) or name in _ND122
    if isinstance(o, (npm.Sparse, npm.LinOp, npm.Dataset, npm.Group, npm.RNG)) and name in type(o).__dict__:
        return True
    if isinstance(o, (npm.Sparse, npm.LinOp)):
        import scipy.sparse
        return hasattr(scipy.sparse.csr_matrix if isinstance(o, npm.Sparse)
                       else scipy.sparse.linalg.LinearOperator, name)
    if isinstance(o, npm.RNG):
        return hasattr(real.random.RandomState, name)
    return hasattr(o, name)


_nothing = object()


def b_getattr(o, name, default=_nothing):
    try:
        return getattr(o, name)
    except AttributeError:
        if default is _nothing:
            raise
        return default


def _minmax(name, native, dd):
    def f(*args, **kw):
        key = kw.get('key')
        xs = list(args[0]) if len(args) == 1 else list(args)
        if any(isinstance(x, (Dim, Sca)) for x in xs) and key is None:
            if all(isinstance(x, Dim) or isinstance(x, numbers.Integral) for x in xs):
                return dd(*xs)
            if len(xs) == 1:
                return xs[0]
            best = xs[0]
            for x in xs[1:]:
                c = (x < best) if name == 'min' else (x > best)
                if c:
                    best = x
            return best
        if len(args) == 1:
            return native(xs, **kw)
        return native(*xs, **kw)
    f.__name__ = name
    return f


def b_int(x=0, *a):
    if isinstance(x, Dim):
        return x
    if isinstance(x, AbsBool):
        return 1 if x else 0
    if isinstance(x, Arr):
        if x.ndim and x.size != 1:
            raise npm.MTypeError('only size-1 arrays can be converted to Python scalars')
        if len(x.val.terms) == 1 and not x.val.terms[0][1]:
            return int(x.val.terms[0][0])
        if x.dtype.kind == 'c':
            raise npm.MTypeError("can't convert complex to int")
        return npm.wrap(tn.fn('int', tn.reshape(x.val, ())), real.dtype(int))
    return int(x, *a)


def b_float(x=0.0):
    if isinstance(x, Dim):
        return npm.Sca(tn.dimscalar(x), real.dtype(float))
    if isinstance(x, Arr):
        if x.ndim and x.size != 1:
            raise npm.MTypeError('only size-1 arrays can be converted to Python scalars')
        if x.dtype.kind == 'c':
            raise npm.MTypeError("can't convert complex to float")
        x = npm.wrap(tn.reshape(x.val, ()), real.dtype(float))
        return x if isinstance(x, Arr) else float(x)
    return float(x)


def b_complex(x=0, *a):
    if isinstance(x, (Dim, Arr)) and not a:
        x = npm.wrap(tn.reshape(npm.ten_of(x), ()), real.dtype(complex))
        return x if isinstance(x, Arr) else complex(x)
    return complex(x, *a)


def b_range(*a):
    if any(isinstance(x, (Dim, Arr)) for x in a):
        raise Unsupported('range over a symbolic dimension')
    return range(*[operator.index(x) for x in a])


def b_round(x, n=None):
    if isinstance(x, Arr):
        return npm.around(x, n or 0)
    if isinstance(x, Dim):
        return x
    return round(x, n) if n is not None else round(x)


def b_bool(x=False):
    if isinstance(x, AbsBool):
        return x
    return bool(x)


def b_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, Dim):
            return int
        if isinstance(x, Sca):
            return x.dtype.type
        if isinstance(x, (Arr, real.ndarray)):
            return ndarray
        return type(x)
    return type(*a)


class TypeProxy(type):
    """int/float/... usable as type and as conversion function."""


def b_sorted(xs, key=None, reverse=False):
    return sorted(xs, key=key, reverse=reverse)


def b_print(*a, **k):
    return None


def b_super(*a):
    return super(*a)


def b_id(x):
    return id(x)


def b_str(*a, **k):
    return str(*a, **k)


def b_dir(*a):
    return dir(*a)


def _locals():
    raise Unsupported('locals')


def _globals():
    raise Unsupported('globals')


def make_builtins():
    b = {}
    for n in ('abs all any ascii bin bytes callable chr classmethod delattr dict divmod enumerate filter '
              'format frozenset hash hex id issubclass iter list map next object oct ord pow property repr '
              'reversed set setattr slice staticmethod str sum tuple zip bytearray memoryview NotImplemented '
              'Ellipsis True False None').split():
        b[n] = getattr(__builtins__, n) if not isinstance(__builtins__, dict) else __builtins__[n]
    import builtins as B
    for n in dir(B):
        o = getattr(B, n)
        if isinstance(o, type) and issubclass(o, BaseException):
            b[n] = o
    b.update(isinstance=b_isinstance, len=b_len, hasattr=b_hasattr, getattr=b_getattr,
             min=_minmax('min', min, D.dmin), max=_minmax('max', max, D.dmax),
             range=RangeT, round=b_round, sorted=b_sorted, print=b_print,
             super=b_super, locals=_locals, globals=_globals, dir=b_dir, vars=vars)
    b['int'] = IntT
    b['float'] = FloatT
    b['complex'] = ComplexT
    b['bool'] = BoolT
    b['type'] = TypeT
    b['__name__'] = '__analysed__'
    b['__debug__'] = True
    return b


# int, float, ... must stay usable as types (isinstance(x, int), np dtype=float) and as converters.
# Calls are intercepted in the interpreter through CONVERTERS.
IntT, FloatT, ComplexT, BoolT, TypeT, RangeT = int, float, complex, bool, type, range
CONVERTERS = {int: b_int, float: b_float, complex: b_complex, bool: b_bool, type: b_type, range: b_range}


# ---------------------------------------------------------------------------------------------
# numpy
# ---------------------------------------------------------------------------------------------
def _guard(name, f):
    def g(*a, **k):
        if npm.is_abs(list(a) + list(k.values())):
            raise Unsupported('np.%s on abstract data' % name)
        r = f(*a, **k)
        return r
    g.__name__ = name
    return g


def np_prod(a, axis=None, dtype=None, out=None, keepdims=False):
    if isinstance(a, Arr):
        if a.ndim == 1 and axis in (None, 0, -1) and not isinstance(a.shape[0], Dim):
            r = 1
            for x in a:
                r = r * x
            return r
        if axis is None and a.ndim == 0:
            return a
        return npm.elementwise_reduce('prod', a, axis)
    if isinstance(a, real.ndarray) and a.dtype != object:
        return real.prod(a, axis=axis, dtype=dtype)
    if isinstance(a, (Dim, int, float, complex, real.generic)):
        return a
    if hasattr(a, '__next__'):
        raise Unsupported('np.prod of an iterator')
    if isinstance(a, real.ndarray) and not npm.is_abs(list(a.flat)):
        return real.prod(a, axis=axis, dtype=dtype)      # Python integers of any size
    xs = list(a)
    if any(isinstance(x, (list, tuple, real.ndarray)) for x in xs):
        if npm.is_abs(xs):
            raise Unsupported('np.prod of nested')
        return real.prod(xs, axis=axis, dtype=dtype)
    if not npm.is_abs(xs):
        return real.prod(xs, axis=axis, dtype=dtype)
    r = 1
    for x in xs:
        r = r * x
    return r


def np_cumprod(a, axis=None, dtype=None):
    xs = list(a)
    if not npm.is_abs(xs):
        return real.cumprod(a, axis=axis, dtype=dtype)
    out, r = [], 1
    for x in xs:
        r = r * x
        out.append(r)
    return npm.array(out)


def np_cumsum(a, axis=None, dtype=None):
    if not npm.is_abs(a):
        return real.cumsum(a, axis=axis, dtype=dtype)
    if isinstance(a, Arr):
        if axis is None and a.ndim == 1:
            return Arr(tn.func('cumsum', [a.val], a.val.axes, a.dtype.kind != 'c'), a.dtype)
        raise Unsupported('cumsum')
    out, r = [], 0
    for x in a:
        r = r + x
        out.append(r)
    return npm.array(out)


def _reduce2(name, dd, realf):
    def f(a, axis=None, **kw):
        if not npm.is_abs(a):
            return realf(a, axis=axis, **kw)
        if isinstance(a, Arr):
            return npm.elementwise_reduce(name, a, axis, **kw)
        xs = list(a)
        return dd(*xs)
    return f


def np_abs(a, *r, **k):
    if isinstance(a, (list, tuple)):
        a = npm.array(a)
    if isinstance(a, real.ndarray):
        return real.abs(a)
    return npm.absolute(a, *r, **k)


def _un(name, realf):
    g = npm._unary(name)

    def f(a, *r, **k):
        if not npm.is_abs(a):
            return realf(a, *r, **k)
        if isinstance(a, Dim):
            a = npm.Sca(tn.dimscalar(a), real.dtype(float))
        return g(a, *r, **k)
    return f


def np_sqrt(a, *r, **k):
    if not npm.is_abs(a):
        return real.sqrt(a)
    return npm.sqrt(a)


def np_any(a, axis=None, **k):
    if not npm.is_abs(a):
        return real.any(a, axis=axis)
    if isinstance(a, (AbsBool,)):
        return a
    if isinstance(a, (list, tuple)):
        for x in a:
            if x:
                return True
        return False
    return npm.arr_of(a).any(axis)


def np_all(a, axis=None, **k):
    if not npm.is_abs(a):
        return real.all(a, axis=axis)
    if isinstance(a, (AbsBool,)):
        return a
    if isinstance(a, (list, tuple)):
        for x in a:
            if not x:
                return False
        return True
    return npm.arr_of(a).all(axis)


def np_arange(*a, **k):
    if npm.is_abs(list(a)):
        n = a[0] if len(a) == 1 else None
        if n is None:
            raise Unsupported('arange')
        return Arr(tn.func('arange', [npm.ten_of(n)], [npm.comps_of(n)], True), real.dtype(k.get('dtype') or int))
    return real.arange(*a, **k)


def np_ravel_multi_index(mi, dims, **k):
    if not npm.is_abs([list(mi), list(dims)]):
        try:
            return real.ravel_multi_index(mi, dims, **k)
        except (ValueError, TypeError) as e:
            raise src(e)
    if k.get('mode', 'raise') != 'raise':
        raise Unsupported('ravel_multi_index mode')
    r = 0
    if k.get('order', 'C') == 'F':
        mi, dims = list(mi)[::-1], list(dims)[::-1]
    if len(mi) != len(dims):
        raise npm.MValueError('parameter multi_index must be a sequence of length %d' % len(dims))
    for i, d in zip(mi, dims):
        r = r * d + i
    return r


def np_round(a, decimals=0, out=None):
    if not npm.is_abs(a):
        return real.round(a, decimals)
    return npm.around(a, decimals)


def np_isnan(a):
    if not npm.is_abs(a):
        return real.isnan(a)
    t = npm.ten_of(a)
    if t.ndim == 0:
        # data symbols stand for numbers; a scalar may still be the result of an invalid operation
        return True if npm.has_nan(t) else AbsBool(('isnan', t.key()))
    if not npm.has_nan(t):
        return real.zeros(tuple(t.shape), bool) if all(isinstance(n, int) for n in t.shape) else \
            npm.zeros(tuple(t.shape), dtype=bool)     # entries are numbers
    return npm.nan_mask(t)


def np_conc(fname):
    """concrete arguments: real numpy; otherwise the model."""
    mf = getattr(npm, fname)
    rf = getattr(real, fname.rstrip('_'), None)

    def f(*a, **k):
        if rf is not None and not npm.is_abs(list(a) + list(k.values())):
            if a and not any(isinstance(x, (real.ndarray, list, tuple)) for x in a) and \
                    not all(isinstance(x, (numbers.Number, str)) for x in a):
                a = [list(x) if hasattr(x, '__next__') else x for x in a]
            return rf(*a, **k)
        a = [list(x) if hasattr(x, '__next__') else x for x in a]
        return mf(*a, **k)
    f.__name__ = fname
    return f


def np_array(obj, *a, **k):
    if isinstance(obj, npm.Dataset):
        obj = obj[()]
    return npm.array(obj, *a, **k)


def np_asarray(obj, *a, **k):
    if isinstance(obj, npm.Dataset):
        obj = obj[()]
    return npm.asarray(obj, *a, **k)


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if hasattr(a, '__next__'):
        r = 0
        for x in a:
            r = r + x
        return r
    if not npm.is_abs(a):
        return real.sum(a, axis=axis, dtype=dtype, keepdims=keepdims)
    if isinstance(a, (list, tuple)) and not npm.has_arr(a):
        r = 0
        for x in a:
            r = r + x
        return r
    return npm.sum_(a, axis, dtype, out, keepdims)


def np_mean(a, axis=None, **k):
    if not npm.is_abs(a):
        return real.mean(a, axis=axis, **k)
    return npm.arr_of(a).mean(axis)


def np_size(a, axis=None):
    a = npm.arr_of(a)
    return a.size if axis is None else a.shape[axis]


def np_vectorize(*a, **k):
    raise Unsupported('np.vectorize')


def np_count_nonzero(a, axis=None, **k):
    cmp = getattr(a, '_cmp', None)
    if axis is None and not k and cmp is not None and a.ndim == 1 and not isinstance(a.shape[0], Dim):
        op, A, B = cmp
        if op in ('lt', 'le'):
            op, A, B = {'lt': 'gt', 'le': 'ge'}[op], B, A
        b = npm.concrete(B) if op in ('gt', 'ge') else None
        if b is not None and (real.abs(b) > 0).all():
            # entries against a fixed threshold: any number of them is possible, one abstract path each
            from .dims import ORACLE
            key = ('count', op, A.key(), B.key())
            tn.ST.conds[key] = (A, B)
            return ORACLE.choose(key, a.shape[0] + 1)
    return np_conc_of(real.count_nonzero)(a, axis=axis, **k)


def np_searchsorted(a, v, side='left', sorter=None):
    if not npm.is_abs([a, v]):
        return real.searchsorted(a, v, side=side)
    v = npm.arr_of(v)
    n = npm.arr_of(a).shape[0]
    if v.ndim == 0 and not isinstance(n, Dim):
        # any position is possible: one abstract path each
        from .dims import ORACLE
        return ORACLE.choose(('searchsorted', npm.ten_of(a).key(), v.val.key(), side), n + 1)
    t = tn.func('searchsorted', [npm.ten_of(a), v.val], v.val.axes, True, (side,))
    return npm.wrap(t, real.dtype(int))


def np_bincount(x, weights=None, minlength=0):
    if not npm.is_abs([x, weights, minlength]):
        return real.bincount(x, weights, minlength)
    x = npm.arr_of(x)
    n = minlength
    args = [x.val] + ([npm.ten_of(weights)] if weights is not None else [])
    return Arr(tn.func('bincount', args, [npm.comps_of(n)], True, (str(n),)), real.dtype(int if weights is None else float))


def _fromfunction(f, shape, dtype=float, **k):
    if npm.is_abs(list(shape)):
        raise Unsupported('fromfunction')
    idx = real.indices(shape, dtype=dtype)
    return f(*idx, **k)


class NumpyTesting(object):
    pass


def _assert_array_equal(a, b, *args, **k):
    if not npm.has_arr([a, b]):
        def lst(x):
            return [lst(y) for y in x] if isinstance(x, (list, tuple)) or (
                hasattr(x, '__iter__') and not isinstance(x, str)) else x
        A, B = lst(a), lst(b)

        def same(x, y):
            if isinstance(x, list) and isinstance(y, list):
                return len(x) == len(y) and all(same(u, v) for u, v in zip(x, y))
            if isinstance(x, list):
                return all(same(u, y) for u in x)
            if isinstance(y, list):
                return all(same(x, v) for v in y)
            return bool(x == y)
        if not same(A, B):
            raise src(AssertionError('Arrays are not equal'))
        return
    r = npm.array_equal(a, b)
    if not r:
        raise src(AssertionError('Arrays are not equal'))


def _assert_almost(a, b, *args, **k):
    if not npm.is_abs([a, b]):
        try:
            real.testing.assert_almost_equal(a, b, *args, **k)
        except AssertionError as e:
            raise src(e)
        return
    r = npm.allclose(a, b)
    if not r:
        raise src(AssertionError('Arrays are not almost equal'))


def np_unravel(indices, shape, order='C'):
    if npm.is_abs([indices, list(shape)]):
        raise Unsupported('unravel_index')
    try:
        return real.unravel_index(indices, shape, order)
    except (ValueError, TypeError) as e:
        raise src(e)


def np_nansum(a, axis=None, **k):
    if not npm.is_abs(a):
        return real.nansum(a, axis=axis)
    a = npm.arr_of(a)
    if npm.has_nan(a.val):
        a = npm.Arr(npm.mult(npm.nan_parts(a.val)[0], npm.const_ten(~npm.nan_mask(a.val))), a.dtype)
    return a.sum(axis)


def np_nanmean(a, axis=None, **k):
    if k:
        raise Unsupported('nanmean arguments')
    if not npm.is_abs(a):
        return real.nanmean(a, axis=axis)
    a = npm.arr_of(a)
    m = npm.nan_mask(a.val) if npm.has_nan(a.val) else real.zeros(tuple(a.shape), bool)
    return np_nansum(a, axis) / (~m).sum(axis)


def np_conc_of(f):
    """Functions that need numbers: applied if the argument is known."""
    def g(a, *args, **k):
        if isinstance(a, Arr):
            c = npm.concrete_arr(a)
            if c is None:
                raise Unsupported('%s of abstract data' % f.__name__)
            a = c
        elif npm.is_abs([a] + list(args)):
            raise Unsupported('%s of abstract data' % f.__name__)
        return f(a, *args, **k)
    return g


def np_clip(a, lo=None, hi=None, **k):
    lo, hi = k.pop('a_min', lo), k.pop('a_max', hi)
    if k:
        raise Unsupported('clip arguments')
    if not npm.is_abs([a, lo, hi]):
        return real.clip(a, lo, hi)
    if lo is not None:
        a = npm.minmax('maximum')(a, lo)
    if hi is not None:
        a = npm.minmax('minimum')(a, hi)
    return a


def make_numpy():
    ns = {}
    for n in ('zeros ones full empty zeros_like ones_like empty_like eye identity diag diagflat diagonal trace '
              'tensordot dot matmul inner vdot outer kron einsum transpose swapaxes rollaxis moveaxis reshape '
              'ravel expand_dims squeeze atleast_1d atleast_2d broadcast_to concatenate stack vstack hstack pad '
              'repeat tile take flip').split():
        ns[n] = np_conc(n)
    for n in ('zeros', 'ones', 'empty', 'full', 'eye', 'identity', 'zeros_like', 'ones_like', 'empty_like',
              'fill_diagonal', 'isscalar', 'common_type', 'result_type', 'iscomplexobj', 'isrealobj',
              'allclose', 'array_equal', 'where'):
        ns[n] = getattr(npm, n)
    ns['split'] = npm.split_
    ns['array'], ns['asarray'], ns['ascontiguousarray'] = np_array, np_asarray, np_asarray
    ns['asanyarray'] = np_asarray
    ns['copy'] = lambda a, **k: np_array(a)
    ns['prod'] = ns['product'] = np_prod
    ns['cumprod'], ns['cumsum'] = np_cumprod, np_cumsum
    ns['sum'], ns['mean'] = np_sum, np_mean
    ns['real'] = lambda x: npm.real_(x) if npm.is_abs(x) else real.real(x)
    ns['imag'] = lambda x: npm.imag_(x) if npm.is_abs(x) else real.imag(x)
    ns['conj'] = ns['conjugate'] = lambda x, *a: npm.conj(x) if npm.is_abs(x) else real.conj(x)
    ns['abs'] = ns['absolute'] = np_abs
    ns['sqrt'] = np_sqrt
    for n in ('sin', 'cos', 'exp', 'log', 'log2', 'log10', 'tan', 'floor', 'ceil', 'sign', 'arccos', 'arcsin',
              'square'):
        ns[n] = _un(n, getattr(real, n))
    ns['max'] = ns['amax'] = _reduce2('max', D.dmax, real.max)
    ns['min'] = ns['amin'] = _reduce2('min', D.dmin, real.min)
    ns['argmax'] = _reduce2('argmax', None, real.argmax)
    ns['argmin'] = _reduce2('argmin', None, real.argmin)
    ns['any'], ns['all'] = np_any, np_all
    ns['sometrue'], ns['alltrue'], ns['cumproduct'], ns['row_stack'] = np_any, np_all, np_cumprod, ns['vstack']
    ns['NAN'], ns['Infinity'], ns['PINF'], ns['NINF'] = math.nan, math.inf, math.inf, -math.inf
    ns['arange'] = np_arange
    ns['ravel_multi_index'], ns['unravel_index'] = np_ravel_multi_index, np_unravel
    ns['round'] = ns['around'] = ns['round_'] = np_round
    ns['isnan'] = np_isnan
    ns['size'], ns['ndim'] = np_size, (lambda a: npm.arr_of(a).ndim)
    ns['shape'] = lambda a: a.shape if hasattr(a, 'shape') else npm.arr_of(a).shape
    ns['vectorize'] = np_vectorize
    ns['searchsorted'], ns['bincount'], ns['fromfunction'] = np_searchsorted, np_bincount, _fromfunction
    ns['nansum'], ns['nanmean'], ns['clip'] = np_nansum, np_nanmean, np_clip
    ns['maximum'], ns['minimum'] = npm.minmax('maximum'), npm.minmax('minimum')
    for n in ('argwhere', 'nonzero', 'flatnonzero', 'count_nonzero', 'argsort', 'sort', 'unique', 'lexsort'):
        ns[n] = np_conc_of(getattr(real, n))
    ns['count_nonzero'] = np_count_nonzero
    ns['logical_not'] = lambda a: (not a) if isinstance(a, (bool, AbsBool)) else ~(a if isinstance(a, Arr) else real.asarray(a))
    ns['negative'] = lambda a: -a
    ns['power'] = Ufunc2('power', lambda a, b: a ** b)
    ns['multiply'] = Ufunc2('multiply', lambda a, b: a * b)
    ns['add'] = Ufunc2('add', lambda a, b: a + b)
    ns['subtract'] = Ufunc2('subtract', lambda a, b: a - b)
    ns['divide'] = ns['true_divide'] = Ufunc2('divide', lambda a, b: a / b)
    ns['ndarray'] = ndarray
    ns.update(float_=real.float64, complex_=real.complex128, int_=real.int64, float=float, int=int, bool=bool,
              complex=complex, object=object, uint=real.uint64, infty=math.inf, inf=math.inf, Inf=math.inf,
              nan=math.nan, NaN=math.nan, pi=math.pi, newaxis=None, e=math.e, string_=bytes, unicode_=str,
              cfloat=real.complex128, bool8=real.bool_)
    for n in ('float64 float32 float16 complex64 complex128 int8 int16 int32 int64 uint8 uint16 uint32 uint64 '
              'bool_ integer floating complexfloating inexact number generic signedinteger unsignedinteger '
              'dtype iinfo finfo can_cast promote_types issubdtype errstate intp').split():
        ns[n] = getattr(real, n)
    la = Mod('numpy.linalg', dict(norm=npm.norm, qr=npm.qr, svd=npm.svd, pinv=npm.pinv,
                                  LinAlgError=npm.MLinAlgError),
             lambda k: _real_fallback('linalg.' + k, getattr(real.linalg, k)))
    ns['linalg'] = la
    ns['random'] = npm.GLOBAL_RNG
    tst = Mod('numpy.testing', dict(assert_array_equal=_assert_array_equal, assert_equal=_assert_array_equal,
                                    assert_almost_equal=_assert_almost,
                                    assert_array_almost_equal=_assert_almost, assert_allclose=_assert_almost),
              lambda k: _real_fallback('testing.' + k, getattr(real.testing, k)))
    ns['testing'] = tst

    def fb(k):
        if k.startswith('__'):
            raise AttributeError(k)
        try:
            v = getattr(real, k)
        except AttributeError:
            if k in _NP122:
                # valid in the numpy of the analysed package but gone from the one that runs the analysis
                raise Unsupported('numpy.%s' % k)
            raise src(AttributeError("module 'numpy' has no attribute %r" % k))
        return _real_fallback(k, v)
    return Mod('numpy', ns, fb), la, tst


_NP122 = frozenset('''AxisError ComplexWarning ModuleDeprecationWarning NINF NZERO PINF PZERO RankWarning
    VisibleDeprecationWarning TooHardError alen asfarray asscalar byte_bounds bytes0 cast chararray clongfloat compat
    deprecate disp find_common_type in1d int0 issctype issubclass_ issubsctype longcomplex longfloat mat maximum_sctype
    msort nbytes obj2sctype object0 safe_eval sctype2char sctypes singlecomplex source str0 trapz uint0 void0 warnings
    who'''.split())
_ND122 = frozenset(('itemset', 'newbyteorder', 'ptp', 'tostring'))


def _real_fallback(k, v):
    if isinstance(v, type) or not callable(v):
        return v
    return _guard(k, v)


class Ufunc2(object):
    """Binary ufunc with the methods that are common in practice."""

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __call__(self, a, b, **kw):
        if set(kw) - {'dtype', 'casting', 'out'}:
            raise Unsupported('%s with %s' % (self.name, sorted(kw)))
        if not npm.is_abs([a, b, kw.get('out')]):
            return getattr(real, self.name)(a, b, **kw)
        if not npm.is_abs(a):
            a = npm.arr_of(a) if isinstance(a, (list, tuple)) else a
        if not npm.is_abs(b):
            b = npm.arr_of(b) if isinstance(b, (list, tuple)) else b
        if not npm.is_abs([a, b]):
            a = npm.arr_of(a)
        r = self.f(a, b)
        out, casting = kw.get('out'), kw.get('casting', 'same_kind')
        if isinstance(out, tuple):
            out, = out
        target = out.dtype if out is not None else kw.get('dtype')
        if out is not None and not isinstance(out, Arr):
            raise Unsupported('%s into %s' % (self.name, type(out)))
        if target is None:
            return r
        rd = npm.promote(r) if not isinstance(r, Arr) else r.dtype
        ind = real.dtype(kw['dtype']) if kw.get('dtype') is not None else rd
        for x, y in [(npm.promote(v), ind) for v in (a, b)] * (kw.get('dtype') is not None) + [(ind, real.dtype(target))]:
            if not real.can_cast(x, y, casting) and not (x.kind in 'iub' and y.kind in 'fc'):
                raise npm.MTypeError("Cannot cast ufunc %r from %r to %r with casting rule %r"
                                     % (self.name, str(x), str(y), casting))
        r = npm.arr_of(r)
        for y in (ind, real.dtype(target)):
            if y != r.dtype:
                r = r.astype(y)
        if out is None:
            return npm.wrap(npm.ten_of(r), real.dtype(target))
        if not out._writeable:
            raise npm.MValueError('output array is read-only')
        if tuple(out.shape) != tuple(r.shape):
            raise npm.MValueError('non-broadcastable output operand')
        out._store(npm.ten_of(r))
        return out

    def outer(self, a, b):
        if not npm.is_abs([a, b]):
            return getattr(real, self.name).outer(a, b)
        a, b = npm.arr_of(a), npm.arr_of(b)
        return self.f(a[(Ellipsis,) + (None,) * b.ndim], b)

    def reduce(self, a, axis=0, **kw):
        if self.name != 'add' or kw:
            raise Unsupported('%s.reduce' % self.name)
        if isinstance(a, (list, tuple)):
            r = a[0]
            for x in a[1:]:
                r = r + x
            if axis != 0:
                raise Unsupported('add.reduce of a list along axis %r' % (axis,))
            return r
        return np_sum(a, axis=axis)

    def __getattr__(self, k):
        raise Unsupported('numpy.%s.%s' % (self.name, k))


class _Math(object):
    pass


def make_math():
    ns = {}
    for n in dir(math):
        v = getattr(math, n)
        if callable(v):
            ns[n] = _guard_math(n, v)
        else:
            ns[n] = v
    return Mod('math', ns)


def _guard_math(n, v):
    def g(*a):
        if npm.is_abs(list(a)):
            if n == 'sqrt':
                return npm.sqrt(a[0])
            if n == 'isnan':
                return np_isnan(a[0])
            if n in ('sin', 'cos', 'exp', 'log'):
                return npm._unary(n)(a[0])
            if n == 'prod':
                return np_prod(list(a[0]))
            if n == 'fabs':
                return npm.absolute(a[0])
            raise Unsupported('math.%s' % n)
        return v(*[list(x) if hasattr(x, '__next__') else x for x in a])
    return g


def make_scipy():
    def un(mod):
        def f(k):
            if k.startswith('__'):
                raise AttributeError(k)

            def g(*a, **kw):
                raise Unsupported('%s.%s' % (mod, k))
            return g
        return f
    la = Mod('scipy.linalg', dict(qr=npm.scipy_qr, svd=npm.svd, norm=npm.norm, pinv=npm.pinv, lu=npm.lu),
             un('scipy.linalg'))
    spla = Mod('scipy.sparse.linalg', dict(eigsh=npm.eigsh, svds=npm.svds, aslinearoperator=npm.aslinearoperator,
                                           LinearOperator=npm.LinOp), un('scipy.sparse.linalg'))
    sp = dict(eye=npm.sp_eye, identity=npm.sp_eye, kron=npm.sp_kron, linalg=spla,
              issparse=lambda x: isinstance(x, npm.Sparse))
    for f in ('csr', 'csc', 'coo', 'dia', 'lil', 'dok', 'bsr'):
        sp[f + '_matrix'] = npm.sp_matrix(f)
    spm = Mod('scipy.sparse', sp, un('scipy.sparse'))
    scm = Mod('scipy', dict(linalg=la, sparse=spm), un('scipy'))
    return scm, la, spm, spla


def _stdlib(mod, extra=None):
    ns = {k: getattr(mod, k) for k in dir(mod) if not k.startswith('__')}
    ns.update(extra or {})
    return Mod(mod.__name__, ns)


def _stdrandom():
    def fb(k):
        if k.startswith('__'):
            raise AttributeError(k)

        def g(*a, **kw):
            npm.EV.draw(('global', 'random.' + k, None))
            raise Unsupported('random.%s' % k)
        return g
    return Mod('random', {}, fb)


def make_models():
    m = {}
    npmod, la, tst = make_numpy()
    m['numpy'], m['numpy.linalg'], m['numpy.testing'] = npmod, la, tst
    m['numpy.random'] = npm.GLOBAL_RNG
    scm, sla, spm, spla = make_scipy()
    m['scipy'], m['scipy.linalg'], m['scipy.sparse'], m['scipy.sparse.linalg'] = scm, sla, spm, spla
    mv = Mod('six.moves', dict(range=range, zip=zip, map=map, filter=filter, zip_longest=itertools.zip_longest,
                               reduce=functools.reduce, input=None, xrange=range))
    m['six.moves'] = mv
    m['six'] = Mod('six', dict(moves=mv, string_types=(str,), iteritems=lambda d: iter(d.items()),
                               integer_types=(int,), itervalues=lambda d: iter(d.values())))
    m['h5py'] = Mod('h5py', dict(File=npm.DISK.File, Group=npm.Group, Dataset=npm.Dataset))
    coll = {k: getattr(collections.abc, k) for k in collections.abc.__all__}
    m['collections'] = _stdlib(collections, dict(coll, abc=Mod('collections.abc', coll)))
    m['collections.abc'] = m['collections'].abc
    for mod in (itertools, functools, operator, numbers, re, string, textwrap, types, abc, contextlib, copy):
        m[mod.__name__] = _stdlib(mod)
    m['warnings'] = Mod('warnings', dict(warn=b_print, simplefilter=b_print, filterwarnings=b_print,
                                         catch_warnings=warnings.catch_warnings))
    m['math'] = make_math()
    m['random'] = _stdrandom()
    import typing
    m['typing'] = _stdlib(typing)
    return m


# ---------------------------------------------------------------------------------------------
def read_sources(root='/repo', pkg='mpnum'):
    out = {}
    base = os.path.join(root, pkg)
    for dp, dn, fn in os.walk(base):
        dn.sort()
        for f in sorted(fn):
            if not f.endswith('.py'):
                continue
            path = os.path.join(dp, f)
            rel = os.path.relpath(path, root)
            name = rel[:-3].replace(os.sep, '.')
            ispkg = False
            if name.endswith('.__init__'):
                name, ispkg = name[:-9], True
            with open(path, encoding='utf8') as fh:
                text = fh.read()
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                out[name] = (rel, ast.parse(text, rel), ispkg)
    return out


class MInterp(Interp):
    def call(self, f, args, kw):
        if isinstance(f, type):
            c = CONVERTERS.get(f)
            if c is not None:
                f = c
        return self.native(f, args, kw)


def new_interp(sources):
    return MInterp(sources, make_models(), make_builtins())
