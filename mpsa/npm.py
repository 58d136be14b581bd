"""Abstract numpy: arrays whose entries are tensor networks (tn.Ten), with dtype, buffer and write effects."""
import itertools
import math
import numbers
import operator
import numpy as real
from . import tn
from . import dims as D
from .dims import Dim, Unsupported, ORACLE, prod, exact_div, isdimlike, known_le
from .tn import Ten


class MValueError(ValueError):
    _model = True


class MIndexError(IndexError):
    _model = True


class MTypeError(TypeError):
    _model = True


class MAttributeError(AttributeError):
    _model = True


class MKeyError(KeyError):
    _model = True


class MOSError(OSError):
    _model = True


class MLinAlgError(ValueError):
    _model = True


class Events(object):
    """Effects recorded during one abstract run."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.draws = []          # (source, method, shape)
        self.casts = []          # complex -> real casts
        self.writes = []         # buffers written
        self.eigs = []
        self.counter = 0
        self.strict_rng = False
        self.assume_nonneg = False
        self.guard = None
        self.conds = None        # list: operands of comparisons are recorded
        self.sv_hook = None      # k -> concrete singular values
        self.calls = {}          # primitive -> number of evaluations

    def draw(self, rec):
        self.draws.append(rec)
        if self.guard is not None:
            self.guard(rec)

    def fresh(self, tag):
        self.counter += 1
        return (tag, self.counter)


EV = Events()


class Buffer(object):
    __slots__ = ('owner', 'version')

    def __init__(self):
        self.owner = None
        self.version = 0


def absbool(key, *ts, **kw):
    """Unknown condition on the data; ts: the values it is about (kept to find data that satisfies a path)."""
    tn.ST.conds[key] = ts
    return AbsBool(key, kw.get('neg', False))


class AbsBool(object):
    """Unknown truth value."""
    __slots__ = ('key', 'neg')

    def __init__(self, key, neg=False):
        self.key = key
        self.neg = neg

    def __bool__(self):
        i = ORACLE.choose(('bool', self.key))
        return (i == 0) != self.neg

    def __invert__(self):
        return AbsBool(self.key, not self.neg)

    def __and__(self, o):
        return bool(self) and bool(o)
    __rand__ = __and__

    def __or__(self, o):
        return bool(self) or bool(o)
    __ror__ = __or__

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    def item(self):
        return self


def dt(x):
    if x is None:
        return real.dtype(float)
    if isinstance(x, Arr):
        return x.dtype
    return real.dtype(x)


def norm_dim(d):
    if isinstance(d, Dim):
        return d
    if isinstance(d, numbers.Integral):
        return int(d)
    if isinstance(d, float) and d == int(d):
        raise MTypeError("'float' object cannot be interpreted as an integer")
    if isinstance(d, Sca):
        raise Unsupported('data dependent dimension')
    raise MTypeError('%r cannot be interpreted as an integer' % (d,))


def comps_of(d):
    return () if (not isinstance(d, Dim) and d == 1) else (d,)


def kind_real(dtype):
    return dtype.kind != 'c'


def promote(*xs):
    """dtype of mixed arrays / python scalars."""
    dts, scal = [], []
    for x in xs:
        if isinstance(x, Sca):
            scal.append(x.dtype)
        elif isinstance(x, Arr):
            dts.append(x.dtype)
        elif isinstance(x, real.ndarray):
            (dts if x.ndim else scal).append(x.dtype if x.dtype != object else real.dtype(int))
        elif isinstance(x, real.generic):
            scal.append(x.dtype)
        elif isinstance(x, Dim):
            scal.append(int)
        elif isinstance(x, real.dtype):
            dts.append(x)
        elif isinstance(x, bool):
            scal.append(bool)
        elif isinstance(x, (int, float, complex)):
            scal.append(type(x))
        else:
            raise Unsupported('dtype of %r' % type(x))
    if not dts:
        return real.result_type(*[real.dtype(s) for s in scal])
    base = real.result_type(*dts)
    rank = {'b': 0, 'i': 1, 'u': 1, 'f': 2, 'c': 3}
    for s in scal:
        s = real.dtype(s)
        if rank.get(s.kind, 9) > rank.get(base.kind, 9):
            if s.kind == 'c':
                base = real.result_type(base, real.complex64)
            elif s.kind == 'f':
                base = real.result_type(base, real.float16) if base.kind == 'f' else real.dtype(float)
            else:
                base = real.result_type(base, s)
    return base


# ---------------------------------------------------------------------------------------------
def const_ten(a):
    """Ten of a concrete numpy array."""
    a = real.asarray(a)
    shape = tuple(int(s) for s in a.shape)
    if a.dtype == object:
        t = tn.zeros([comps_of(s) for s in shape])
        for idx in real.ndindex(*shape):
            v = a[idx]
            if isinstance(v, Arr):
                e = v.val
            elif isinstance(v, Dim):
                e = tn.dimscalar(v)
            elif isinstance(v, numbers.Number):
                e = tn.scalar(pynum(v))
            else:
                raise Unsupported('object array entry %r' % type(v))
            for ax, (i, s) in enumerate(zip(idx, shape)):
                e = tn.outer(e, tn.basis(s, int(i)))
            t = tn.add(t, e)
        return t
    if a.ndim == 0:
        return tn.scalar(pynum(a[()]))
    if a.dtype.kind in 'fc' and not real.isfinite(a).all():
        ind = real.isnan(a)
        inf = ~real.isfinite(a) & ~ind
        r = const_ten(real.where(real.isfinite(a), a, 0))
        if ind.any():
            r = tn.add(r, tn.outer(const_ten(ind.astype(int)), tn.opaque('nan', [], True)))
        if inf.any():
            r = tn.add(r, tn.outer(const_ten(real.where(inf, real.sign(a.real), 0)), tn.opaque('inf', [], True)))
        return r
    nz = [tuple(int(i) for i in x) for x in real.argwhere(a)]
    if not nz:
        return tn.zeros([comps_of(s) for s in shape])
    # recognise constant and constant-diagonal arrays
    vals = [pynum(a[i]) for i in nz]
    if all(abs(v - vals[0]) < 1e-14 for v in vals):
        if len(nz) == a.size:
            return tn.scale(tn.ones([comps_of(s) for s in shape]), vals[0])
        big = [i for i, s in enumerate(shape) if s != 1]
        if len(big) >= 2 and len({shape[i] for i in big}) == 1 and len(nz) == shape[big[0]] and \
                all(len({i[b] for b in big}) == 1 for i in nz):
            t = tn.delta((shape[big[0]],), len(big))
            for i, s in enumerate(shape):
                if s == 1:
                    t = tn.insert_axis(t, i)
            return tn.scale(t, vals[0])
    if len(nz) > 64:
        name = ('const', a.tobytes(), shape, str(a.dtype))
        return tn.opaque(name, [comps_of(s) for s in shape], a.dtype.kind != 'c')
    raw = []
    for idx, v in zip(nz, vals):
        nodes, outs = [], []
        for i, s in zip(idx, shape):
            if s == 1:
                outs.append(())
            else:
                w = tn.Wire(s)
                nodes.append((('inc', i), (w,)))
                outs.append((w,))
        raw.append((v, tuple(nodes), tuple(outs)))
    return Ten(tuple(comps_of(s) for s in shape), raw)


def pynum(v):
    if isinstance(v, (bool, real.bool_)):
        return int(v)
    if isinstance(v, numbers.Integral):
        return int(v)
    if isinstance(v, numbers.Real):
        return float(v)
    return complex(v)


def has_nan(t):
    return any(lab[0] == 'T' and lab[1] == 'nan' for _, nodes, _ in t.terms for lab, _ in nodes)


def nan_parts(t):
    """(terms without nan, cofactors of nan)"""
    ok, bad = [], []
    for c, nodes, outs in t.terms:
        n = [x for x in nodes if not (x[0][0] == 'T' and x[0][1] == 'nan')]
        (ok if len(n) == len(nodes) else bad).append((c, tuple(n), outs))
    return Ten(t.axes, ok), Ten(t.axes, bad)


def nan_mask(t):
    """Which entries are nan (concrete shape)."""
    if not all(isinstance(n, int) for n in t.shape):
        raise Unsupported('nan in an array of symbolic shape')
    from .evalten import Point
    m = real.zeros(t.shape, bool)
    for x in nan_parts(t)[1].terms:
        m |= abs(Point(12345).ten(Ten(t.axes, [x]))) > 1e-12
    return m


def _constant(name):
    """Does this opaque tensor stand for numbers: a constant, or an interpreted function of constants?"""
    if name == 'nan':
        return True
    if not isinstance(name, tuple) or not name:
        return False
    if name[0] == 'const':
        return True
    if name[0] == 'f' and name in tn.ST.fnargs:
        return all(concrete(a) is not None for a in tn.ST.fnargs[name][2])
    if name[0] == 'fn' and name[2] in tn.ST.scalars:
        return concrete(tn.ST.scalars[name[2]]) is not None
    if _FACTORS and name[0] in ('Q', 'R'):
        v = tn.ST.pairs.get(('Q', name[1]), {})
        return bool(v) and all(concrete(x[2]) is not None for x in v.values())
    if _FACTORS and name[0] in ('U', 'S', 'V'):
        sv = tn.ST.svd.get(('S', name[1]))
        return sv is not None and concrete(sv[2]) is not None
    return False


_FACTORS = []


def number(t):
    """The value of a scalar in which only constants and factors of constant matrices occur, or None."""
    _FACTORS.append(1)
    try:
        return concrete(t)
    finally:
        _FACTORS.pop()


def _constant_scalar(k):
    x = tn.ST.scalars.get(k[1] if isinstance(k, tuple) and len(k) == 2 and k[0] == 'ten' else k)
    if x is None:
        x = tn.ST.scalars.get(('c', k))
    return x is not None and concrete(x) is not None


def concrete(t):
    """The numbers in a tensor of concrete shape without symbolic data, or None."""
    for n in t.shape:
        if not isinstance(n, int):
            return None
    for c, nodes, outs in t.terms:
        for lab, legs in nodes:
            if lab[0] == 'T' and not _constant(lab[1]) or lab[0] == 'sc' and not _constant_scalar(lab[2]):
                return None
            if any(isinstance(w.dim, Dim) for w in legs):
                return None
    from .evalten import Point
    ok, bad = nan_parts(t)
    try:
        r = Point(1).ten(ok)
    except Unsupported:
        return None
    if not abs(r.imag).any():
        r = r.real
    if bad.terms:
        r = real.where(nan_mask(t), real.nan, r)
    return r


def concrete_arr(a):
    r = concrete(a.val)
    if r is None:
        return None
    if a.dtype.kind in 'biu':
        r = real.round(real.real(r))
    return (r if a.dtype.kind == 'c' else real.real(r)).astype(a.dtype)


def ten_of(x):
    if isinstance(x, Arr):
        return x.val
    if isinstance(x, Dim):
        return tn.dimscalar(x)
    if isinstance(x, (numbers.Number, real.generic)):
        v = pynum(x)
        if isinstance(v, float) and v != v:
            return tn.opaque('nan', [], True)
        if isinstance(v, float) and math.isinf(v):
            return tn.scale(tn.opaque('inf', [], True), 1 if v > 0 else -1)
        return tn.scalar(v)
    if isinstance(x, real.ndarray):
        return const_ten(x)
    if isinstance(x, (list, tuple)):
        return ten_of(array(x))
    raise Unsupported('not an array: %r' % type(x))


def is_abs(x):
    """Does x contain abstract data?"""
    if isinstance(x, (Arr, Dim, AbsBool)):
        return True
    if isinstance(x, (list, tuple)):
        return any(is_abs(y) for y in x)
    if isinstance(x, real.ndarray) and x.dtype == object:
        return any(is_abs(y) for y in x.flat)
    return False


def has_arr(x):
    if isinstance(x, Arr):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_arr(y) for y in x)
    if isinstance(x, real.ndarray) and x.dtype == object:
        return any(isinstance(y, Arr) for y in x.flat)
    return False


def arr_of(x):
    """Coerce to Arr without copying."""
    if isinstance(x, Arr):
        return x
    if isinstance(x, real.ndarray):
        return Arr(const_ten(x), x.dtype if x.dtype != object else real.dtype(float))
    if isinstance(x, (list, tuple)):
        return arr_of(array(x))
    if isinstance(x, Dim):
        return Sca(tn.dimscalar(x), real.dtype(int))
    if isinstance(x, (numbers.Number, real.generic)):
        return Arr(ten_of(x), promote(x))
    if hasattr(x, '__iter__') and not isinstance(x, (str, bytes)):
        raise Unsupported('array from iterator')
    raise Unsupported('array from %r' % type(x))


def wrap(t, dtype):
    """Result of a reduction/ufunc: scalar when 0-dimensional."""
    if t.ndim == 0:
        if not t.terms:
            return {'c': real.complex128(0), 'f': real.float64(0)}.get(dtype.kind, 0) \
                if dtype.kind != 'b' else False
        if len(t.terms) == 1 and not t.terms[0][1]:
            c = t.terms[0][0]
            if dtype.kind == 'c':
                return real.complex128(complex(c))
            if dtype.kind == 'f':
                return real.float64(float(c.real if isinstance(c, complex) else c))
            if dtype.kind in 'iu' and not isinstance(c, complex) and c == int(c):
                return int(c)
            return c
        return Sca(t, dtype)
    return Arr(t, dtype)


class Flags(object):
    def __init__(self, arr):
        self._a = arr

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        raise Unsupported('Flags.%s' % k)

    @property
    def writeable(self):
        return self._a.writeable

    @writeable.setter
    def writeable(self, v):
        self._a.setflags(write=v)

    @property
    def owndata(self):
        return self._a.base is None

    @property
    def c_contiguous(self):
        raise Unsupported('memory layout')

    def __getitem__(self, k):
        if k in ('WRITEABLE', 'W'):
            return self.writeable
        raise Unsupported('flags')

    def __setitem__(self, k, v):
        if k in ('WRITEABLE', 'W'):
            self.writeable = v
            return
        raise Unsupported('flags')


class Flat(object):
    def __init__(self, a):
        self._a = a

    def __len__(self):
        n = self._a.size
        if isinstance(n, Dim):
            raise Unsupported('length of symbolic flat')
        return n

    def __getitem__(self, i):
        return self._a.ravel()[i]

    def __setitem__(self, i, v):
        self._a.reshape((-1,))[i] = v

    def __iter__(self):
        return iter(self._a.ravel())


_BINOPS = {}


class Arr(object):
    """Abstract ndarray."""
    __array_priority__ = 1e6
    __array_ufunc__ = None

    def __init__(self, val, dtype, base=None, fwd=None, bwd=None):
        self._val = val
        self.dtype = dtype if isinstance(dtype, real.dtype) else real.dtype(dtype)
        self._base = base
        self._fwd = fwd
        self._bwd = bwd
        self._writeable = True if base is None else base._writeable
        self.buf = Buffer() if base is None else base.buf
        self._ver = self.buf.version

    # -- value with view semantics --
    @property
    def val(self):
        if self._base is not None and self._ver != self.buf.version:
            if self._fwd is None:
                raise Unsupported('stale view')
            self._val = self._fwd(self._base.val)
            self._ver = self.buf.version
        return self._val

    def _store(self, newval):
        if not self._writeable:
            raise MValueError('assignment destination is read-only')
        EV.writes.append(self.buf)
        self._store2(newval)

    def _store2(self, newval):
        if self._base is None:
            self._val = newval
            self.buf.version += 1
            self._ver = self.buf.version
        else:
            if self._bwd is None:
                raise Unsupported('write through this view')
            b = self._base
            b._store2(self._bwd(b.val, newval))
            self._val = newval
            self._ver = self.buf.version

    def _view(self, val, fwd, bwd, dtype=None):
        return type(self)._mk(val, dtype or self.dtype, self, fwd, bwd)

    @staticmethod
    def _mk(val, dtype, base, fwd, bwd):
        return Arr(val, dtype, base, fwd, bwd)

    # -- attributes --
    @property
    def base(self):
        return self._base

    @property
    def shape(self):
        return self.val.shape

    @shape.setter
    def shape(self, s):
        raise Unsupported('in-place shape change')

    @property
    def ndim(self):
        return self._val.ndim

    @property
    def size(self):
        return prod(self.shape)

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    @property
    def flags(self):
        return Flags(self)

    @property
    def writeable(self):
        return self._writeable

    @property
    def flat(self):
        return Flat(self)

    @flat.setter
    def flat(self, v):
        raise Unsupported('flat assignment')

    @property
    def T(self):
        return self.transpose()

    @property
    def real(self):
        if self.dtype.kind != 'c':
            return self
        return re_part(self)

    @property
    def imag(self):
        if self.dtype.kind != 'c':
            return Arr(tn.zeros(self.val.axes), self.dtype)
        return im_part(self)

    def setflags(self, write=None, align=None, uic=None):
        if write is not None:
            if write and not self._writeable and self._base is not None and not self._base._writeable:
                raise MValueError('cannot set WRITEABLE flag to True of this array')
            self._writeable = bool(write)

    def view(self, *a, **k):
        if a or k:
            raise Unsupported('view with arguments')
        return self._view(self.val, lambda b: b, lambda b, n: n)

    def copy(self, order='C'):
        return Arr(self.val, self.dtype)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, **kw):
        d = dt(dtype)
        if d.kind in 'iub' and all(isinstance(s, int) for s in self.shape):
            c = concrete(self.val)      # plain integers are index data
            if c is not None and not real.isnan(c).any():
                if self.dtype.kind == 'c':
                    EV.casts.append('complex data cast to %s' % d)
                return real.asarray(real.real(c)).astype(d)
        return Arr(cast(self.val, self.dtype, d), d)

    def conj(self):
        return wrap0(self, tn.conj(self.val), self.dtype)
    conjugate = conj

    def transpose(self, *axes):
        n = self.ndim
        if len(axes) == 1 and (axes[0] is None or hasattr(axes[0], '__iter__')):
            axes = axes[0]
        if axes is None or len(tuple(axes)) == 0 and n != 0:
            axes = tuple(range(n))[::-1]
        axes = tuple(norm_axis(norm_dim(a), n) for a in axes)
        if sorted(axes) != list(range(n)):
            raise MValueError("axes don't match array")
        inv = [axes.index(i) for i in range(n)]
        return self._view(tn.transpose(self.val, axes), lambda b: tn.transpose(b, axes),
                          lambda b, x: tn.transpose(x, inv))

    def swapaxes(self, a, b):
        n = self.ndim
        a, b = norm_axis(a, n), norm_axis(b, n)
        p = list(range(n))
        p[a], p[b] = p[b], p[a]
        return self.transpose(p)

    def reshape(self, *shape, **kw):
        order = kw.get('order', 'C')
        if order not in ('C', 'A', 'F'):
            raise Unsupported('reshape order')
        if 'shape' in kw:
            shape = (kw['shape'],)
        if len(shape) == 1 and (isinstance(shape[0], real.ndarray) or hasattr(shape[0], '__iter__')):
            shape = tuple(shape[0])
        shape = resolve_shape(self.shape, shape)
        old = self.shape
        if order == 'F':
            v = tn.transpose(tn.reshape(tn.transpose(self.val, tuple(range(self.ndim))[::-1]), tuple(shape)[::-1]),
                             tuple(range(len(shape)))[::-1])
            return Arr(v, self.dtype)
        v = tn.reshape(self.val, shape)
        return self._view(v, lambda b: tn.reshape(b, shape), lambda b, x: tn.reshape(x, old))

    def ravel(self, order='C'):
        if order not in ('C', 'A', 'K', 'F'):
            raise Unsupported('ravel order')
        if order == 'F' and self.ndim:
            return self.reshape((-1,), order='F')
        return self.reshape((-1,)) if self.ndim else self.reshape((1,))

    def flatten(self, order='C'):
        return self.ravel(order).copy()

    def squeeze(self, axis=None):
        n = self.ndim
        if axis is None:
            ax = [i for i in range(n) if self.val.axes[i] == ()]
        else:
            ax = [norm_axis(a, n) for a in (axis if hasattr(axis, '__iter__') else (axis,))]
            for a in ax:
                if self.val.axes[a] != ():
                    raise MValueError('cannot select an axis to squeeze out which has size not equal to one')
        keep = [s for i, s in enumerate(self.shape) if i not in ax]
        return self.reshape(tuple(keep))

    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return sum_(self, axis, dtype, out, keepdims)

    def prod(self, axis=None, dtype=None, **kw):
        if self.ndim == 0 or all(a == () for a in self.val.axes):
            return wrap(tn.reshape(self.val, ()), self.dtype)
        return elementwise_reduce('prod', self, axis)

    def mean(self, axis=None, **kw):
        s = self.sum(axis)
        n = self.size if axis is None else prod(self.shape[norm_axis(a, self.ndim)] for a in
                                                (axis if isinstance(axis, tuple) else (axis,)))
        return s / n

    def cumsum(self, axis=None, **kw):
        if axis is None:
            t = tn.reshape(self.val, (self.size,)) if self.ndim != 1 else self.val
            return wrap(tn.func('cumsum', [t], t.axes, self.dtype.kind != 'c'), self.dtype)
        return wrap(tn.func('cumsum', [self.val], self.val.axes, self.dtype.kind != 'c', (norm_axis(axis, self.ndim),)), self.dtype)

    def max(self, axis=None, **kw):
        return elementwise_reduce('max', self, axis)

    def min(self, axis=None, **kw):
        return elementwise_reduce('min', self, axis)

    def argmax(self, axis=None):
        raise Unsupported('argmax of data')

    def argmin(self, axis=None):
        raise Unsupported('argmin of data')

    def argsort(self, *a, **k):
        raise Unsupported('argsort of data')

    def dot(self, other, out=None):
        return dot(self, other)

    def trace(self, offset=0, axis1=0, axis2=1, dtype=None, out=None):
        return trace(self, offset, axis1, axis2)

    def diagonal(self, offset=0, axis1=0, axis2=1):
        return diagonal(self, offset, axis1, axis2)

    def repeat(self, repeats, axis=None):
        return repeat(self, repeats, axis)

    def take(self, indices, axis=None, **kw):
        return take(self, indices, axis)

    def all(self, axis=None, **kw):
        c = concrete(self.val)
        if c is not None:
            return c.all(axis)
        if axis is not None:
            raise Unsupported('all(axis)')
        return absbool(('all', self.val.key()), self.val)

    def any(self, axis=None, **kw):
        c = concrete(self.val)
        if c is not None:
            return c.any(axis)
        if axis is not None:
            raise Unsupported('any(axis)')
        return absbool(('any', self.val.key()), self.val)

    def item(self, *args):
        if args:
            return self.ravel()[args[0]] if len(args) == 1 else self[tuple(args)]
        if self.size != 1:
            raise MValueError('can only convert an array of size 1 to a Python scalar')
        return wrap(tn.reshape(self.val, ()), self.dtype)

    def tolist(self):
        if self.ndim == 0:
            return self.item()
        return [x.tolist() if isinstance(x, Arr) and x.ndim else x for x in self]

    def fill(self, v):
        self[...] = v

    def round(self, decimals=0):
        return around(self, decimals)

    def nonzero(self):
        raise Unsupported('nonzero')

    def sort(self, *a, **k):
        raise Unsupported('sort')

    # -- protocol --
    def __len__(self):
        if self.ndim == 0:
            raise MTypeError('len() of unsized object')
        n = self.shape[0]
        if isinstance(n, Dim):
            raise SymLen(n)
        return n

    def __iter__(self):
        if self.ndim == 0:
            raise MTypeError('iteration over a 0-d array')
        n = self.shape[0]
        if isinstance(n, Dim):
            raise Unsupported('iteration over an axis of symbolic dimension')

        def gen():
            for i in range(n):
                yield self[i]
        return gen()

    def __contains__(self, x):
        raise Unsupported('membership in array')

    def __bool__(self):
        if self.ndim and self.size != 1:
            if isinstance(self.size, Dim) or self.size != 1:
                raise MValueError('The truth value of an array with more than one element is ambiguous.')
        v = tn.reshape(self.val, ())
        if not v.terms:
            return False
        if len(v.terms) == 1 and not v.terms[0][1]:
            return v.terms[0][0] != 0
        return bool(absbool(('nz', v.key()), v))

    def __hash__(self):
        return id(self)

    def __getitem__(self, idx):
        return getitem(self, idx)

    def __setitem__(self, idx, v):
        setitem(self, idx, v)

    def __float__(self):
        raise Unsupported('float() of abstract value')

    __int__ = __index__ = __complex__ = __float__

    def __repr__(self):
        return 'Arr%s<%s>' % (self.shape, self.dtype)

    def __format__(self, spec):
        return repr(self)

    def __neg__(self):
        return wrap0(self, tn.scale(self.val, -1), self.dtype)

    def __pos__(self):
        return wrap0(self, self.val, self.dtype)

    def __abs__(self):
        return absolute(self)

    def __invert__(self):
        if self.dtype.kind == 'b':
            return Arr(tn.add(tn.ones(self.val.axes), tn.scale(self.val, -1)), self.dtype)
        return ew('invert', self, self.dtype)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        if hasattr(real.ndarray, name) or name in ('itemset', 'newbyteorder', 'ptp', 'tostring'):
            raise Unsupported('ndarray.%s' % name)
        raise MAttributeError("'numpy.ndarray' object has no attribute %r" % name)


class SymLen(Unsupported):
    """len() of an axis of symbolic dimension (intercepted by the interpreter's len)."""

    def __init__(self, dim):
        Unsupported.__init__(self, 'len() of symbolic dimension used natively')
        self.dim = dim


class Sca(Arr):
    """Abstract numpy scalar."""

    def __init__(self, val, dtype, *a):
        Arr.__init__(self, val, dtype)
        self._writeable = False

    def _store(self, v):
        raise MTypeError('scalar does not support item assignment')

    def __repr__(self):
        return 'Sca<%s>' % self.dtype

    def is_integer(self):
        return AbsBool(('isint', self.val.key()))


def wrap0(a, t, dtype):
    """ufunc result: 0-d gives scalar."""
    return wrap(t, dtype)


def norm_axis(a, n):
    if isinstance(a, Dim) or isinstance(a, Arr):
        raise Unsupported('abstract axis')
    a = int(a)
    if not -n <= a < n:
        raise _AxisError('axis %d is out of bounds for array of dimension %d' % (a, n))
    return a % n


class _AxisError(ValueError, IndexError):
    _model = True


def resolve_shape(old, shape):
    if not isinstance(shape, tuple):
        shape = (shape,)
    shape = [norm_dim(s) for s in shape]
    total = prod(old)
    neg = [i for i, s in enumerate(shape) if not isinstance(s, Dim) and s == -1]
    if len(neg) > 1:
        raise MValueError('can only specify one unknown dimension')
    if any(not isinstance(s, Dim) and s < -1 for s in shape):
        raise MValueError('negative dimensions not allowed')
    if neg:
        rest = prod(s for i, s in enumerate(shape) if i != neg[0])
        q = exact_div(total, rest)
        if q is None:
            raise MValueError('cannot reshape array of size %s into shape %s' % (total, shape))
        shape[neg[0]] = q
    elif prod(shape) != total:
        raise MValueError('cannot reshape array of size %s into shape %s' % (total, tuple(shape)))
    return tuple(shape)


# ---------------------------------------------------------------------------------------------
# casts
# ---------------------------------------------------------------------------------------------
def cast(t, d0, d1):
    if d0.kind == 'c' and d1.kind in 'fiub':
        EV.casts.append('complex data cast to %s' % d1)
        return re_ten(t)
    if d0.kind == 'f' and d1.kind in 'iub':
        if all(not n for c, n, o in t.terms) and all(float(c) == int(c) for c, n, o in t.terms):
            return t
        EV.casts.append('float data cast to %s' % d1)
        return tn.fn('int', t)
    return t


def re_ten(t):
    r = tn.scale(tn.add(t, tn.conj(t)), 0.5)
    return r


def re_part(a):
    return wrap_same(a, re_ten(a.val), real_dtype(a.dtype))


def im_part(a):
    r = tn.scale(tn.add(a.val, tn.scale(tn.conj(a.val), -1)), -0.5j)
    return wrap_same(a, r, real_dtype(a.dtype))


def wrap_same(a, t, dtype):
    if isinstance(a, Sca) or t.ndim == 0:
        return wrap(t, dtype)
    return Arr(t, dtype)


def real_dtype(d):
    if d.kind == 'c':
        return real.dtype('f%d' % (d.itemsize // 2))
    return d


# ---------------------------------------------------------------------------------------------
# indexing
# ---------------------------------------------------------------------------------------------
def expand_index(shape, idx):
    """-> list of entries per source axis / None, in order."""
    if not isinstance(idx, tuple):
        if isinstance(idx, list) and any(isinstance(i, slice) or i is Ellipsis or i is None for i in idx):
            idx = tuple(idx)
        else:
            idx = (idx,)
    idx = list(idx)
    n_used = 0
    for i in idx:
        if i is None or i is Ellipsis:
            continue
        if isinstance(i, real.ndarray) and i.dtype == bool:
            n_used += i.ndim
        elif isinstance(i, Arr) and i.dtype.kind == 'b':
            n_used += i.ndim
        else:
            n_used += 1
    if n_used > len(shape):
        raise MIndexError('too many indices for array: array is %d-dimensional, but %d were indexed'
                          % (len(shape), n_used))
    if sum(1 for i in idx if i is Ellipsis) > 1:
        raise MIndexError("an index can only have a single ellipsis ('...')")
    if not any(i is Ellipsis for i in idx):
        idx.append(Ellipsis)
    e = [k for k, i in enumerate(idx) if i is Ellipsis][0]
    idx[e:e + 1] = [slice(None)] * (len(shape) - n_used)
    return idx


def slice_bounds(s, d):
    """(offset, length, step) of a slice over dimension d; step in (1, -1) or concrete."""
    step = 1 if s.step is None else int(s.step)
    if isinstance(d, int) and not any(isinstance(x, Dim) for x in (s.start, s.stop)):
        st, sp, step = slice(*(None if x is None else int(norm_dim(x)) for x in (s.start, s.stop, s.step))).indices(d)
        n = len(range(st, sp, step))
        return st, n, step
    if step == -1:
        if s.start is None and s.stop is None:
            return 0, d, -1
        raise Unsupported('reversed partial slice of symbolic axis')
    if step != 1:
        raise Unsupported('strided slice of symbolic axis')

    def clip(x, default):
        if x is None:
            return default
        x = norm_dim(x)
        if isinstance(x, int) and x < 0:
            x = d + x
            if isinstance(x, int) and x < 0:
                return 0
            k = known_le(0, x)
            if k is False:
                return 0
            return x
        k = known_le(x, d)
        if k is None:
            k = bool(D.cmp_dims(x - d, 0, '<=')) if isinstance(x - d, Dim) else x <= d
        return x if k else d
    st = clip(s.start, 0)
    sp = clip(s.stop, d)
    ln = sp - st
    if isinstance(ln, Dim):
        k = known_le(0, ln)
        if k is False:
            ln = 0
    elif ln < 0:
        ln = 0
    return st, ln, 1


def _int_index(i, d):
    i = norm_dim(i)
    if isinstance(i, int):
        if isinstance(d, int):
            if not -d <= i < d:
                raise MIndexError('index %d is out of bounds for axis with size %d' % (i, d))
            return i % d
        if i < 0:
            r = d + i
            k = known_le(0, r)
            if k is False:
                raise MIndexError('index out of bounds')
            return r
        k = known_le(i + 1, d)
        if k is None:
            k = bool(D.cmp_dims(d, i + 1, '>='))
        if not k:
            raise MIndexError('index %d is out of bounds for axis with size %s' % (i, d))
        return i
    return i


def is_intlike(i):
    return (isinstance(i, (numbers.Integral, Dim)) and not isinstance(i, (bool, real.bool_))) or \
        (isinstance(i, real.ndarray) and i.ndim == 0 and i.dtype.kind in 'iu')


def plan_index(shape, idx):
    """Basic-index plan: list of ops per source axis, and the result layout."""
    ent = expand_index(shape, idx)
    plan = []
    ax = 0
    for i in ent:
        if i is None:
            plan.append(('new',))
            continue
        d = shape[ax]
        if isinstance(i, slice):
            plan.append(('slice', ax) + slice_bounds(i, d))
        elif is_intlike(i):
            plan.append(('int', ax, _int_index(int(i) if isinstance(i, real.ndarray) else i, d)))
        elif isinstance(i, (list, tuple, real.ndarray)):
            a = real.asarray(i)
            if a.dtype == bool:
                if a.ndim != 1:
                    raise Unsupported('boolean mask')
                if not isinstance(d, int) or a.size != d:
                    raise MIndexError('boolean index did not match indexed array')
                a = real.nonzero(a)[0]
            if a.dtype.kind not in 'iu' or a.ndim != 1:
                raise Unsupported('fancy index')
            plan.append(('take', ax, [_int_index(int(x), d) for x in a]))
        elif isinstance(i, Arr):
            raise Unsupported('data dependent index')
        elif isinstance(i, (bool, real.bool_)):
            raise Unsupported('boolean scalar index')
        else:
            raise MIndexError('only integers, slices, ellipsis, None and integer arrays are valid indices')
        ax += 1
    return plan


def apply_plan(t, plan):
    """Ten -> indexed Ten."""
    off = 0
    takes = [p for p in plan if p[0] == 'take']
    if len(takes) > 1:
        raise Unsupported('several index arrays')
    cur = t
    axis = 0            # position in cur
    for p in plan:
        if p[0] == 'new':
            cur = tn.insert_axis(cur, axis)
            axis += 1
        elif p[0] == 'slice':
            _, ax, st, ln, step = p
            d = prod(cur.axes[axis])
            if step == 1:
                if isinstance(ln, int) and ln == 0:
                    raise Unsupported('empty slice')
                cur = tn.slice_axis(cur, axis, st, ln)
            elif step == -1 and ln == d:
                cur = tn.reverse_axis(cur, axis)
            else:
                sel = list(range(st, st + step * ln, step))[:ln]
                cur = take_axis(cur, axis, sel)
            axis += 1
        elif p[0] == 'int':
            cur = tn.drop_axis(tn.slice_axis(cur, axis, p[2], 1), axis)
        elif p[0] == 'take':
            cur = take_axis(cur, axis, p[2])
            axis += 1
    return cur


def take_axis(t, axis, sel):
    if not sel:
        raise Unsupported('empty selection')
    d = prod(t.axes[axis])
    if sel == list(range(sel[0], sel[0] + len(sel))):
        return tn.slice_axis(t, axis, sel[0], len(sel))
    return tn.concat([tn.slice_axis(t, axis, i, 1) for i in sel], axis)


def getitem(a, idx):
    if isinstance(a, Sca):
        if idx is Ellipsis or idx == ():
            return a
        if idx is None:
            return Arr(tn.insert_axis(a.val, 0), a.dtype)
        if isinstance(idx, tuple) and all(i is None or i is Ellipsis for i in idx):
            n = sum(1 for i in idx if i is None)
            t = a.val
            for _ in range(n):
                t = tn.insert_axis(t, 0)
            return Arr(t, a.dtype)
        raise MIndexError('invalid index to scalar variable.')
    if isinstance(idx, tuple) and any(isinstance(i, Arr) and i.dtype.kind == 'b' for i in idx) or \
            (isinstance(idx, Arr) and idx.dtype.kind == 'b'):
        m = concrete_arr(idx) if isinstance(idx, Arr) else None
        if m is None:
            raise Unsupported('mask read')
        idx = m
    if isinstance(idx, real.ndarray) and idx.dtype == bool and idx.ndim > 1 and idx.shape == tuple(a.shape):
        c = concrete_arr(a)
        if c is not None:
            return c[idx]
        ent = [a[tuple(int(p) for p in pos)] for pos in zip(*real.nonzero(idx))]
        if not ent:
            return real.zeros(0, a.dtype)
        return stack([arr_of(x) for x in ent])
    plan = plan_index(a.shape, idx)
    t = apply_plan(a.val, plan)
    full_int = all(p[0] == 'int' for p in plan) and len(plan) == a.ndim
    has_ell = idx is Ellipsis or (isinstance(idx, tuple) and any(i is Ellipsis for i in idx))
    if full_int and not has_ell:
        return wrap(t, a.dtype)
    if any(p[0] == 'take' for p in plan):
        return Arr(t, a.dtype)
    return a._view(t, lambda b: apply_plan(b, plan), lambda b, x: scatter(b, plan, x))


def plan_shape(t, plan):
    out = []
    for p in plan:
        if p[0] == 'new':
            out.append(1)
        elif p[0] == 'slice':
            out.append(p[3])
        elif p[0] == 'take':
            out.append(len(p[2]))
    return tuple(out)


def scatter(b, plan, x):
    """b with the region described by plan replaced by x (already of the right shape)."""
    shape = b.shape
    # whole array?
    if all(p[0] in ('new', 'slice') and (p[0] == 'new' or (p[2] == 0 and p[3] == shape[p[1]] and p[4] == 1))
           for p in plan):
        y = x
        ax = 0
        for p in plan:
            if p[0] == 'new':
                y = tn.drop_axis(y, ax)
            else:
                ax += 1
        return y

    def embed(x):
        y = x
        ax = 0
        for p in plan:
            if p[0] == 'new':
                y = tn.drop_axis(y, ax)
            elif p[0] == 'slice':
                _, sax, st, ln, step = p
                if step == 1:
                    y = tn.embed_axis(y, ax, st, shape[sax])
                elif step == -1 and ln == shape[sax]:
                    y = tn.reverse_axis(y, ax)
                else:
                    sel = list(range(st, st + step * ln, step))[:ln]
                    y = tn.add(*[tn.embed_axis(tn.slice_axis(y, ax, k, 1), ax, s, shape[sax])
                                 for k, s in enumerate(sel)])
                ax += 1
            elif p[0] == 'int':
                y = tn.embed_axis(tn.insert_axis(y, ax), ax, p[2], shape[p[1]])
                ax += 1
            elif p[0] == 'take':
                sel = p[2]
                if len(set(sel)) != len(sel):
                    raise Unsupported('repeated assignment index')
                y = tn.add(*[tn.embed_axis(tn.slice_axis(y, ax, k, 1), ax, s, shape[p[1]])
                             for k, s in enumerate(sel)])
                ax += 1
        return y
    new = embed(x)
    if not b.terms:
        return new
    old = embed(apply_plan(b, plan))
    return tn.add(b, tn.scale(old, -1), new)


def broadcast_ten(t, shape):
    """Broadcast Ten to the given shape."""
    n = len(shape)
    while t.ndim < n:
        t = tn.insert_axis(t, 0)
    if t.ndim > n:
        # leading ones may be dropped for assignment
        while t.ndim > n:
            if t.axes[0] != ():
                raise MValueError('could not broadcast input array')
            t = tn.drop_axis(t, 0)
    out = t
    for i, d in enumerate(shape):
        td = prod(out.axes[i])
        if td == d:
            continue
        if out.axes[i] == ():
            # multiply by ones
            o = tn.ones([comps_of(d)])
            rest = tn.drop_axis(out, i)
            r = tn.outer(rest, o)
            perm = list(range(rest.ndim))
            perm.insert(i, rest.ndim)
            out = tn.transpose(r, perm)
        else:
            raise MValueError('could not broadcast input array from shape %s into shape %s' % (t.shape, shape))
    return out


def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        d = 1
        for s in shapes:
            k = i - (n - len(s))
            if k < 0:
                continue
            x = s[k]
            if x == 1 and not isinstance(x, Dim):
                continue
            if d == 1 and not isinstance(d, Dim):
                d = x
            elif d != x:
                raise MValueError('operands could not be broadcast together with shapes %s'
                                  % ' '.join(str(s) for s in shapes))
        out.append(d)
    return tuple(out)


def setitem(a, idx, v):
    if isinstance(a, Sca):
        raise MTypeError('scalar does not support item assignment')
    if not a._writeable:
        raise MValueError('assignment destination is read-only')
    mask = None
    if isinstance(idx, Arr) and idx.dtype.kind == 'b':
        mask = idx
    if mask is not None:
        cm = concrete_arr(mask)
        if cm is not None:
            return setitem(a, cm, v)
        c = getattr(mask, '_cmp', None)
        if EV.assume_nonneg and c is not None and c[0] in ('le', 'lt') and not c[2].terms and \
                c[1].key() == a.val.key() and not ten_of(v).terms:
            return      # clipping of non-negative values
        # masked assignment: opaque update depending on both
        if arr_of(v).ndim:
            raise Unsupported('masked assignment')
        a._store(tn.func('mask', [a.val, mask.val, ten_of(v)], a.val.axes, a.dtype.kind != 'c'))
        return
    if isinstance(idx, real.ndarray) and idx.dtype == bool and idx.shape == tuple(a.shape):
        if arr_of(v).ndim == 0:
            for pos in zip(*real.nonzero(idx)):
                setitem(a, tuple(int(p) for p in pos), v)
            return
        if arr_of(v).ndim == 1 and arr_of(v).shape[0] == int(idx.sum()):
            for k, pos in enumerate(zip(*real.nonzero(idx))):
                setitem(a, tuple(int(p) for p in pos), arr_of(v)[k])
            return
    plan = plan_index(a.shape, idx)
    vt = ten_of(v)
    vd = promote(v) if not isinstance(v, (list, tuple)) else arr_of(v).dtype
    vt = cast(vt, vd, a.dtype)
    x = broadcast_ten(vt, plan_shape(a.val, plan))
    a._store(scatter(a.val, plan, x))


# ---------------------------------------------------------------------------------------------
# ufuncs
# ---------------------------------------------------------------------------------------------
def binary(op, a, b):
    if not (has_arr(a) or has_arr(b)):
        if isinstance(a, Dim) or isinstance(b, Dim):
            if op == 'truediv':
                return divide_t(ten_of(a), ten_of(b), real.dtype(float))
            if op == 'mul':
                return a * b
            if isinstance(a, (float, complex)) or isinstance(b, (float, complex)):
                a, b = arr_of(a), arr_of(b)
            else:
                raise Unsupported('%s on dimensions' % op)
        else:
            raise Unsupported(op)
    for x in (a, b):
        if isinstance(x, Sparse):
            return NotImplemented
    A, B = ten_of(a), ten_of(b)
    d = promote(a, b)
    if op in ('add', 'sub', 'mul', 'truediv'):
        if op == 'truediv' and d.kind in 'iub':
            d = real.dtype(float)
        if op in ('add', 'sub'):
            sh = bshape(A.shape, B.shape)
            A, B = broadcast_ten(A, sh), broadcast_ten(B, sh)
            r = tn.add(A, tn.scale(B, -1) if op == 'sub' else B)
        elif op == 'mul':
            r = mult(A, B)
        else:
            cb = concrete(B) if B.ndim else None
            if cb is not None and B.ndim and not all(x == () for x in B.axes):
                if (cb == 0).any():
                    ca = concrete(A)
                    if ca is None:
                        raise Unsupported('division by zero')
                    with real.errstate(all='ignore'):
                        r = const_ten(ca / cb)
                else:
                    r = mult(A, const_ten(1. / cb))
            elif B.ndim and not all(x == () for x in B.axes):
                r = mult(A, tn.fn('recip', B, real=promote(b).kind != 'c'))
            else:
                B0 = tn.reshape(B, ())
                if not B0.terms:        # numpy: x / 0 is infinite, 0 / 0 undefined
                    B0 = None
                    sh = bshape(A.shape, B.shape)
                    return wrap(tn.outer(broadcast_ten(A, sh), tn.opaque('inf' if A.terms else 'nan', [], True))
                                if A.terms else tn.outer(tn.ones(broadcast_ten(A, sh).axes), tn.opaque('nan', [], True)), d)
                sh = bshape(A.shape, B.shape)
                r = tn.outer(broadcast_ten(A, sh), tn.inv(B0))
        return wrap(r, d)
    if op == 'pow':
        if isinstance(b, numbers.Integral) and int(b) == 2:
            return wrap(mult(A, A), d)
        if isinstance(b, numbers.Integral) and int(b) == 1:
            return wrap(A, d)
        if isinstance(b, numbers.Real) and float(b) == 2.0:
            return wrap(mult(A, A), d)
        if isinstance(b, numbers.Real) and float(b) == 0.5:
            return sqrt(arr_of(a))
        if isinstance(b, numbers.Real) and float(b) == -1:
            return binary('truediv', 1, a)
        if isinstance(b, numbers.Integral) and 2 < int(b) <= 6:
            r = A
            for _ in range(int(b) - 1):
                r = mult(r, A)
            return wrap(r, d)
    if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        return compare(op, A, B)
    sh = bshape(A.shape, B.shape)
    A, B = broadcast_ten(A, sh), broadcast_ten(B, sh)
    return wrap(tn.func(op, [A, B], A.axes, d.kind != 'c'), d)


def mult(A, B):
    """Elementwise product with broadcasting."""
    n = max(A.ndim, B.ndim)
    sh = bshape(A.shape, B.shape)
    while A.ndim < n:
        A = tn.insert_axis(A, 0)
    while B.ndim < n:
        B = tn.insert_axis(B, 0)
    la, lb, out = [], [], []
    for i in range(n):
        da, db = prod(A.axes[i]), prod(B.axes[i])
        if da == db:
            la.append(i)
            lb.append(i)
            out.append(i)
        elif A.axes[i] == ():
            la.append(('a', i))
            lb.append(i)
            out.append(i)
        else:
            lb.append(('b', i))
            la.append(i)
            out.append(i)
    return tn.einsum([la, lb], out, [A, B])


def divide_t(a, b, d):
    return wrap(tn.outer(a, tn.inv(b)), d)


def compare(op, A, B):
    if EV.conds is not None:
        EV.conds.append((op, A, B))
    sh = bshape(A.shape, B.shape)
    if len(sh) == 0:
        dlt = tn.add(A, tn.scale(B, -1))
        if not dlt.terms:
            return op in ('le', 'ge', 'eq')
        if len(dlt.terms) == 1 and not dlt.terms[0][1]:
            c = dlt.terms[0][0]
            if isinstance(c, complex) and abs(c.imag) < 1e-14:
                c = c.real
            if op == 'eq':
                return c == 0
            if op == 'ne':
                return c != 0
            return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[op]
        c = number(dlt)
        if c is not None and abs(c) > 1e-13:
            # numbers, known up to rounding
            c = real.real(c)
            return {'eq': False, 'ne': True, 'lt': bool(c < 0), 'le': bool(c < 0), 'gt': bool(c > 0), 'ge': bool(c > 0)}[op]
        if op in ('eq', 'ne'):
            k = dlt.key()
            k2 = tn.scale(dlt, -1).key()
            return absbool(('eq', min(k, k2)), dlt, neg=op == 'ne')
        # a < b, a <= b, a > b, a >= b share one choice (generic: never equal)
        k, k2 = dlt.key(), tn.scale(dlt, -1).key()
        pos = absbool(('pos', min(k, k2)), dlt if k <= k2 else tn.scale(dlt, -1), neg=k > k2)      # "first orientation positive"
        return ~pos if op in ('lt', 'le') else pos
    A, B = broadcast_ten(A, sh), broadcast_ten(B, sh)
    ca = concrete(A)
    cb = concrete(B) if ca is not None else None
    if cb is not None:
        return getattr(operator, op)(ca, cb)
    r = Arr(tn.func(op, [A, B], A.axes, True), real.dtype(bool))
    r._cmp = (op, A, B)
    return r


def _mkop(op, swap=False):
    def f(self, o):
        if isinstance(o, Sparse):
            return NotImplemented
        if not isinstance(o, (Arr, real.ndarray, real.generic, numbers.Number, Dim, list, tuple)):
            if o is None and op in ('eq', 'ne'):
                return op == 'ne'
            return NotImplemented
        if isinstance(o, (list, tuple)):
            o = array(o)
        return binary(op, o, self) if swap else binary(op, self, o)
    return f


for _n, _op in (('add', 'add'), ('sub', 'sub'), ('mul', 'mul'), ('truediv', 'truediv'), ('pow', 'pow'),
                ('floordiv', 'floordiv'), ('mod', 'mod'), ('and', 'and'), ('or', 'or'), ('xor', 'xor')):
    setattr(Arr, '__%s__' % _n, _mkop(_op))
    setattr(Arr, '__r%s__' % _n, _mkop(_op, True))
for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(Arr, '__%s__' % _n, _mkop(_n))


def _mkiop(op):
    def f(self, o):
        if isinstance(self, Sca) or isinstance(o, Sparse):
            return NotImplemented
        if not isinstance(o, (Arr, real.ndarray, real.generic, numbers.Number, Dim, list, tuple)):
            return NotImplemented
        r = binary(op, self, o)
        if not self._writeable:
            raise MValueError('output array is read-only')
        rd = promote(r) if not isinstance(r, Arr) else r.dtype
        if rd.kind == 'c' and self.dtype.kind != 'c' or (rd.kind == 'f' and self.dtype.kind in 'iub'):
            raise MTypeError("Cannot cast ufunc %r output from dtype(%r) to dtype(%r) with casting rule 'same_kind'"
                             % (op, str(rd), str(self.dtype)))
        rt = ten_of(r)
        if rt.shape != self.shape:
            raise MValueError('non-broadcastable output operand')
        self._store(rt)
        return self
    return f


for _n in ('add', 'sub', 'mul', 'truediv', 'pow'):
    setattr(Arr, '__i%s__' % _n, _mkiop(_n))


# Dim / number
def _dim_truediv(self, o):
    q = exact_div(self, int(o)) if isinstance(o, numbers.Integral) else None
    if q is not None and not isinstance(q, Dim):
        return float(q)
    return divide_t(tn.dimscalar(self), ten_of(o), real.dtype(float))


def _dim_rtruediv(self, o):
    return divide_t(ten_of(o), tn.dimscalar(self), real.dtype(float))


Dim.__truediv__ = _dim_truediv
Dim.__rtruediv__ = _dim_rtruediv
_old_mul = Dim.__mul__
_old_add = Dim.__add__
_old_sub = Dim.__sub__
_old_rsub = Dim.__rsub__


def _num_fallback(old, op, swap=False):
    def f(self, o):
        if isinstance(o, (float, complex, real.inexact)):
            return binary(op, Sca(ten_of(o), promote(o)), Sca(tn.dimscalar(self), real.dtype(int))) if swap else \
                binary(op, Sca(tn.dimscalar(self), real.dtype(int)), Sca(ten_of(o), promote(o)))
        return old(self, o)
    return f


Dim.__mul__ = Dim.__rmul__ = _num_fallback(_old_mul, 'mul')
Dim.__add__ = Dim.__radd__ = _num_fallback(_old_add, 'add')
Dim.__sub__ = _num_fallback(_old_sub, 'sub')
Dim.__rsub__ = _num_fallback(_old_rsub, 'sub', True)


def ew(name, a, dtype, isreal=None):
    a = arr_of(a)
    return wrap_same(a, tn.fn(name, a.val, real=(dtype.kind != 'c') if isreal is None else isreal), dtype)


class AbsVal(Arr):
    """|x| remembered, so that |x|**2 == x * conj(x)."""


def absolute(a, *args, **kw):
    if isinstance(a, (numbers.Number, Dim)):
        return abs(a)
    a = arr_of(a)
    r = wrap_same(a, tn.fn('abs', a.val), real_dtype(a.dtype))
    if isinstance(r, Arr):
        _ABS[id(r.val)] = (r.val, a.val)
        ST_ABS[r.val.key()] = a.val
    return r


_ABS = {}
ST_ABS = {}


def _pow(self, o):
    if isinstance(o, numbers.Number) and o == 2 and isinstance(self, Arr):
        src = ST_ABS.get(self.val.key())
        if src is not None:
            return wrap(mult(src, tn.conj(src)), self.dtype)
    return binary('pow', self, o)


Arr.__pow__ = lambda self, o: _pow(self, o)


def sqrt(a):
    if isinstance(a, Dim):
        return wrap(tn.fn('sqrt', tn.dimscalar(a)), real.dtype(float))
    a = arr_of(a)
    d = a.dtype if a.dtype.kind in 'fc' else real.dtype(float)
    return wrap(tn.fn('sqrt', a.val, real=d.kind != 'c'), d)


def _unary(name):
    def f(a, *args, **kw):
        if args or kw:
            raise Unsupported('np.%s arguments' % name)
        a = arr_of(a)
        d = a.dtype if a.dtype.kind in 'fc' else real.dtype(float)
        return wrap(tn.fn(name, a.val, real=d.kind != 'c'), d)
    return f


def conj(a, *args, **kw):
    if isinstance(a, (numbers.Number, Dim)) and not isinstance(a, Arr):
        return a.conjugate() if isinstance(a, numbers.Number) else a
    return arr_of(a).conj()


def around(a, decimals=0, out=None):
    a = arr_of(a)
    return wrap(tn.fn('round%s' % decimals, a.val, real=a.dtype.kind != 'c'), a.dtype)


def elementwise_reduce(name, a, axis, **kw):
    if kw.get('keepdims'):
        raise Unsupported('keepdims')
    if axis is None:
        t = tn.reshape(a.val, (a.size,)) if a.ndim != 1 else a.val
        return wrap(tn.func('red', [t], (), a.dtype.kind != 'c', (name, 0)), a.dtype)
    ax = norm_axis(axis, a.ndim)
    axes = a.val.axes[:ax] + a.val.axes[ax + 1:]
    return wrap(tn.func('red', [a.val], axes, a.dtype.kind != 'c', (name, ax)), a.dtype)


# ---------------------------------------------------------------------------------------------
# construction
# ---------------------------------------------------------------------------------------------
def array(obj, dtype=None, copy=True, order=None, subok=False, ndmin=0):
    if isinstance(obj, Arr):
        d = dt(dtype) if dtype is not None else obj.dtype
        r = Arr(cast(obj.val, obj.dtype, d), d)
        while r.ndim < ndmin:
            r = Arr(tn.insert_axis(r.val, 0), d)
        return r
    if isinstance(obj, real.ndarray):
        return real.array(obj, dtype=dtype, ndmin=ndmin)
    if dtype is not None and real.dtype(dtype) == object:
        if has_arr(obj) and not any(isinstance(x, Sca) for x in obj):
            raise Unsupported('object array of arrays')
        obj = list(obj)
        r = real.empty(len(obj), dtype=object)
        nested = [isinstance(x, (list, tuple)) for x in obj]
        if any(nested):
            return real.array(obj, dtype=object)
        for i, x in enumerate(obj):
            r[i] = x
        return r
    if isinstance(obj, (list, tuple)) and has_arr(obj):
        parts = [x if isinstance(x, Arr) else (array(x) if isinstance(x, (list, tuple)) else x) for x in obj]
        arrs = [arr_of(x) for x in parts]
        r = stack(arrs)
        if dtype is not None:
            r = r.astype(dtype)
        while r.ndim < ndmin:
            r = Arr(tn.insert_axis(r.val, 0), r.dtype)
        return r
    if isinstance(obj, Dim):
        return real.array(obj, dtype=object, ndmin=ndmin)
    if isinstance(obj, (list, tuple)) and is_abs(obj):
        return real.array(obj, dtype=object, ndmin=ndmin)
    if isinstance(obj, (numbers.Number, str, list, tuple, real.generic, range)):
        return real.array(obj, dtype=dtype, ndmin=ndmin)
    if hasattr(obj, '__array__') or hasattr(obj, '__len__') and hasattr(obj, '__getitem__'):
        return array(list(obj), dtype=dtype, ndmin=ndmin)
    r = real.empty((), dtype=object)
    r[()] = obj
    return r


def asarray(obj, dtype=None, order=None):
    if isinstance(obj, Arr) and (dtype is None or dt(dtype) == obj.dtype):
        return obj
    if isinstance(obj, real.ndarray) and dtype is None:
        return obj
    return array(obj, dtype=dtype)


def shape_arg(shape):
    if isinstance(shape, (Dim, numbers.Integral)):
        shape = (shape,)
    return tuple(norm_dim(s) for s in shape)


def zeros(shape, dtype=None, order='C'):
    shape = shape_arg(shape)
    d = dt(dtype)
    if d.kind in 'iubO' and not any(isinstance(s, Dim) for s in shape):
        return real.zeros(shape, dtype=d)
    if any(not isinstance(s, Dim) and s < 0 for s in shape):
        raise MValueError('negative dimensions are not allowed')
    return Arr(tn.zeros([comps_of(s) for s in shape]), d)


def ones(shape, dtype=None, order='C'):
    shape = shape_arg(shape)
    d = dt(dtype)
    if d.kind in 'iubO' and not any(isinstance(s, Dim) for s in shape):
        return real.ones(shape, dtype=d)
    return Arr(tn.ones([comps_of(s) for s in shape]), d)


def full(shape, v, dtype=None, order='C'):
    d = dt(dtype) if dtype is not None else promote(v)
    if d.kind in 'iub' and not is_abs(v) and not any(isinstance(s, Dim) for s in shape_arg(shape)):
        return real.full(shape_arg(shape), v, dtype=d)
    return Arr(tn.outer(tn.reshape(ten_of(v), ()), tn.ones([comps_of(s) for s in shape_arg(shape)])), d)


def empty(shape, dtype=None, order='C'):
    shape = shape_arg(shape)
    d = dt(dtype)
    if d.kind in 'iubO' and not any(isinstance(s, Dim) for s in shape):
        return real.zeros(shape, dtype=d) if d.kind != 'O' else real.empty(shape, dtype=object)
    return Arr(tn.opaque(EV.fresh('uninitialised'), [comps_of(s) for s in shape], d.kind != 'c'), d)


def zeros_like(a, dtype=None, **kw):
    if not isinstance(a, Arr):
        return real.zeros_like(a, dtype=dtype)
    return zeros(a.shape, dtype or a.dtype)


def ones_like(a, dtype=None, **kw):
    if not isinstance(a, Arr):
        return real.ones_like(a, dtype=dtype)
    return ones(a.shape, dtype or a.dtype)


def empty_like(a, dtype=None, **kw):
    if not isinstance(a, Arr):
        return real.zeros_like(a, dtype=dtype)
    return empty(a.shape, dtype or a.dtype)


def eye(N, M=None, k=0, dtype=None, order='C'):
    N = norm_dim(N)
    M = N if M is None else norm_dim(M)
    if k != 0:
        return real.eye(N, M, k, dtype=dtype or float)
    d = dt(dtype)
    if N == M:
        return Arr(tn.eye(comps_of(N)), d)
    lo = D.dmin(N, M)
    t = tn.eye(comps_of(lo))
    t = tn.embed_axis(t, 0, 0, N)
    t = tn.embed_axis(t, 1, 0, M)
    return Arr(t, d)


def identity(n, dtype=None):
    return eye(n, dtype=dtype)


def diag(v, k=0):
    if k != 0:
        raise Unsupported('diag offset')
    v = arr_of(v)
    if v.ndim == 1:
        t = tn.einsum([[0], [0, 1]], [0, 1], [v.val, tn.eye(v.val.axes[0])])
        return Arr(t, v.dtype)
    if v.ndim == 2:
        return diagonal(v).copy()
    raise MValueError('Input must be 1- or 2-d.')


def diagflat(v, k=0):
    return diag(arr_of(v).ravel(), k)


def diagonal(a, offset=0, axis1=0, axis2=1):
    if offset != 0:
        raise Unsupported('diagonal offset')
    a = arr_of(a)
    n = a.ndim
    i, j = norm_axis(axis1, n), norm_axis(axis2, n)
    if i == j:
        raise MValueError('axis1 and axis2 cannot be the same')
    t = square_part(a.val, i, j)
    keep = [[x] for x in range(n) if x not in (i, j)]
    r = Arr(tn.self_einsum(t, keep + [[i, j]], []), a.dtype, base=a)
    r._base = None
    r.buf = Buffer()
    r._ver = 0
    r._writeable = False
    return r


def square_part(t, i, j):
    di, dj = prod(t.axes[i]), prod(t.axes[j])
    if di != dj:
        m = D.dmin(di, dj)
        if m == di:
            t = tn.slice_axis(t, j, 0, m)
        elif m == dj:
            t = tn.slice_axis(t, i, 0, m)
        else:
            t = tn.slice_axis(tn.slice_axis(t, j, 0, m), i, 0, m)
    return t


def trace(a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
    if offset != 0:
        raise Unsupported('trace offset')
    a = arr_of(a)
    n = a.ndim
    i, j = norm_axis(axis1, n), norm_axis(axis2, n)
    if i == j:
        raise MValueError('axis1 and axis2 cannot be the same')
    t = square_part(a.val, i, j)
    keep = [[x] for x in range(n) if x not in (i, j)]
    return wrap(tn.self_einsum(t, keep, [[i, j]]), a.dtype)


def fill_diagonal(a, val, wrap_=False):
    if isinstance(a, real.ndarray):
        real.fill_diagonal(a, val)
        return
    dims = set(a.shape)
    if len(dims) != 1:
        raise Unsupported('fill_diagonal of non-cubic array')
    d = a.shape[0]
    delta = tn.delta(comps_of(d), a.ndim)
    lab = list(range(a.ndim))
    cur = a.val
    off = tn.add(cur, tn.scale(tn.einsum([lab, lab], lab, [cur, delta]), -1)) if cur.terms else cur
    v = ten_of(val)
    if v.ndim == 0 or all(x == () for x in v.axes):
        dd = tn.outer(tn.reshape(v, ()), delta)
    else:
        raise Unsupported('fill_diagonal with array')
    a._store(tn.add(off, dd))


# ---------------------------------------------------------------------------------------------
# contraction etc.
# ---------------------------------------------------------------------------------------------
def _shape_guard(f):
    def g(*a, **k):
        try:
            return f(*a, **k)
        except tn.ShapeError as e:
            raise MValueError(str(e))
    g.__name__ = f.__name__
    return g


@_shape_guard
def tensordot(a, b, axes=2):
    A, B = arr_of(a), arr_of(b)
    if hasattr(axes, '__iter__'):
        ax, bx = axes
        ax = list(ax) if hasattr(ax, '__iter__') else [ax]
        bx = list(bx) if hasattr(bx, '__iter__') else [bx]
    else:
        n = int(axes)
        ax = list(range(-n, 0))
        bx = list(range(0, n))
    if len(ax) != len(bx):
        raise MValueError('shape-mismatch for sum')
    try:
        ax = [norm_axis(x, A.ndim) for x in ax]
        bx = [norm_axis(x, B.ndim) for x in bx]
    except _AxisError as e:
        raise MIndexError('tuple index out of range')
    if len(set(ax)) != len(ax) or len(set(bx)) != len(bx):
        raise MValueError('repeated axis in tensordot')
    if len(A.val.terms) * len(B.val.terms) > 100:
        ca = concrete(A.val)
        cb = concrete(B.val) if ca is not None else None
        if cb is not None and [ca.shape[i] for i in ax] == [cb.shape[i] for i in bx]:       # constants only: fold
            return arrwrap(const_ten(real.tensordot(ca, cb, (ax, bx))), promote(A, B))
    return arrwrap(tn.tensordot(A.val, B.val, ax, bx), promote(A, B))


def arrwrap(t, d):
    """tensordot-like: 0-d array stays array."""
    return Arr(t, d)


@_shape_guard
def dot(a, b, out=None):
    if isinstance(b, (Sparse,)) or isinstance(a, Sparse):
        return smatmul(a, b)
    A, B = arr_of(a), arr_of(b)
    if A.ndim == 0 or B.ndim == 0:
        return binary('mul', A, B)
    bx = 0 if B.ndim == 1 else B.ndim - 2
    r = tn.tensordot(A.val, B.val, [A.ndim - 1], [bx])
    return wrap(r, promote_arr(A, B))


def promote_arr(*xs):
    return real.result_type(*[x.dtype for x in xs])


@_shape_guard
def matmul(a, b):
    if isinstance(a, Sparse) or isinstance(b, Sparse):
        return smatmul(a, b)
    A, B = arr_of(a), arr_of(b)
    if A.ndim == 0 or B.ndim == 0:
        raise MValueError('matmul: Input operand does not have enough dimensions')
    if A.ndim <= 2 and B.ndim <= 2:
        return dot(A, B)
    va, vb = A.val, B.val
    sqa = sqb = False
    if va.ndim == 1:
        va = tn.insert_axis(va, 0)
        sqa = True
    if vb.ndim == 1:
        vb = tn.insert_axis(vb, 1)
        sqb = True
    na, nb = va.ndim - 2, vb.ndim - 2
    n = max(na, nb)
    sh = bshape(va.shape[:-2], vb.shape[:-2])
    va = broadcast_ten(va, sh + va.shape[-2:])
    vb = broadcast_ten(vb, sh + vb.shape[-2:])
    batch = list(range(n))
    out = batch + ([] if sqa else ['i']) + ([] if sqb else ['k'])
    r = tn.einsum([batch + ['i', 'j'], batch + ['j', 'k']], out, [va, vb])
    return wrap(r, promote_arr(A, B))


@_shape_guard
def inner(a, b):
    A, B = arr_of(a), arr_of(b)
    if A.ndim == 0 or B.ndim == 0:
        return binary('mul', A, B)
    return wrap(tn.tensordot(A.val, B.val, [A.ndim - 1], [B.ndim - 1]), promote_arr(A, B))


@_shape_guard
def vdot(a, b):
    A, B = arr_of(a), arr_of(b)
    if prod(A.shape) != prod(B.shape):
        raise MValueError('cannot reshape / vdot shapes')
    va = tn.reshape(A.val, (prod(A.shape),))
    vb = tn.reshape(B.val, (prod(B.shape),))
    return wrap(tn.tensordot(tn.conj(va), vb, [0], [0]), promote_arr(A, B))


def outer(a, b, out=None):
    A, B = arr_of(a).ravel(), arr_of(b).ravel()
    return Arr(tn.outer(A.val, B.val), promote_arr(A, B))


def kron(a, b):
    if isinstance(a, Sparse) or isinstance(b, Sparse):
        raise Unsupported('np.kron of sparse')
    A, B = arr_of(a), arr_of(b)
    n = max(A.ndim, B.ndim)
    va, vb = A.val, B.val
    while va.ndim < n:
        va = tn.insert_axis(va, 0)
    while vb.ndim < n:
        vb = tn.insert_axis(vb, 0)
    r = tn.outer(va, vb)
    groups = []
    for i in range(n):
        groups.append([(i, p) for p in range(len(va.axes[i]))] + [(n + i, p) for p in range(len(vb.axes[i]))])
    return wrap(tn.regroup(r, groups), promote_arr(A, B))


@_shape_guard
def einsum(*args, **kw):
    kw.pop('optimize', None)
    if kw:
        raise Unsupported('einsum keywords')
    if isinstance(args[0], str):
        spec = args[0].replace(' ', '')
        ops = [arr_of(x) for x in args[1:]]
        if '->' in spec:
            lhs, rhs = spec.split('->')
        else:
            lhs, rhs = spec, None
        ins = lhs.split(',')
        if len(ins) != len(ops):
            raise MValueError('einsum: wrong number of operands')
        labs = []
        for s, o in zip(ins, ops):
            if '...' in s:
                a, b = s.split('...')
                k = o.ndim - len(a) - len(b)
                if k < 0:
                    raise MValueError('einsum: too many subscripts')
                labs.append((list(a), k, list(b)))
            else:
                if len(s) != o.ndim:
                    raise MValueError('einsum: operand has wrong number of dimensions')
                labs.append((list(s), 0, []))
        m = max(k for _, k, _ in labs)
        ins2 = [a + [('e', m - k + i) for i in range(k)] + b for a, k, b in labs]
        if rhs is None:
            flat = [c for a, k, b in labs for c in a + b]
            out = [('e', i) for i in range(m)] + sorted(c for c in set(flat) if flat.count(c) == 1)
        else:
            if '...' in rhs:
                a, b = rhs.split('...')
                out = list(a) + [('e', i) for i in range(m)] + list(b)
            else:
                out = list(rhs)
    else:
        ops, ins2 = [], []
        rest = list(args)
        out = None
        while len(rest) >= 2:
            ops.append(arr_of(rest.pop(0)))
            ins2.append(list(rest.pop(0)))
        if rest:
            out = list(rest.pop(0))
        if any(x is Ellipsis for l in ins2 for x in l):
            raise Unsupported('einsum ellipsis')
        if out is None:
            flat = [c for l in ins2 for c in l]
            out = sorted(c for c in set(flat) if flat.count(c) == 1)
    vals = [o.val for o in ops]
    # broadcast axes of dimension one
    full = {}
    for l, v in zip(ins2, vals):
        for x, a in zip(l, v.axes):
            if a != ():
                full.setdefault(x, prod(a))
    ins3 = []
    for k, (l, v) in enumerate(zip(ins2, vals)):
        ll = []
        for p, x in enumerate(l):
            if v.axes[p] == () and x in full:
                ll.append(('one', k, p))
            else:
                ll.append(x)
        ins3.append(ll)
    known = {x for l in ins3 for x in l}
    if any(x not in known for x in out):
        raise MValueError('einsum: output subscript not in inputs')
    return wrap(tn.einsum(ins3, out, vals), promote_arr(*ops))


def transpose(a, axes=None):
    return arr_of(a).transpose(*(() if axes is None else (axes,)))


def swapaxes(a, i, j):
    return arr_of(a).swapaxes(i, j)


def rollaxis(a, axis, start=0):
    a = arr_of(a)
    n = a.ndim
    axis = norm_axis(axis, n)
    start = int(start)
    if start < 0:
        start += n
    if not 0 <= start < n + 1:
        raise _AxisError('start out of range')
    if axis < start:
        start -= 1
    if axis == start:
        return a.view()
    axes = list(range(n))
    axes.remove(axis)
    axes.insert(start, axis)
    return a.transpose(axes)


def moveaxis(a, source, destination):
    a = arr_of(a)
    n = a.ndim
    src = list(source) if hasattr(source, '__iter__') else [source]
    dst = list(destination) if hasattr(destination, '__iter__') else [destination]
    src = [norm_axis(s, n) for s in src]
    dst = [norm_axis(s, n) for s in dst]
    if len(src) != len(dst):
        raise MValueError('`source` and `destination` arguments must have the same number of elements')
    order = [i for i in range(n) if i not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return a.transpose(order)


def reshape(a, newshape, order='C'):
    return arr_of(a).reshape(newshape, order=order)


def ravel(a, order='C'):
    return arr_of(a).ravel(order)


def expand_dims(a, axis):
    a = arr_of(a)
    axes = [axis] if not hasattr(axis, '__iter__') else list(axis)
    n = a.ndim + len(axes)
    axes = [norm_axis(x, n) for x in axes]
    it = iter(a.shape)
    return a.reshape(tuple(1 if i in axes else next(it) for i in range(n)))


def squeeze(a, axis=None):
    return arr_of(a).squeeze(axis)


def atleast_1d(a):
    a = arr_of(a)
    return a if a.ndim >= 1 else a.reshape((1,))


def atleast_2d(a):
    a = arr_of(a)
    return a if a.ndim >= 2 else a.reshape((1,) * (2 - a.ndim) + tuple(a.shape))


def broadcast_to(a, shape, subok=False):
    a = arr_of(a)
    r = Arr(broadcast_ten(a.val, shape_arg(shape)), a.dtype)
    r._writeable = False
    return r


@_shape_guard
def concatenate(arrs, axis=0, out=None, dtype=None):
    arrs = list(arrs)
    if not arrs:
        raise MValueError('need at least one array to concatenate')
    A = [arr_of(a) for a in arrs]
    if axis is None:
        A = [a.ravel() for a in A]
        axis = 0
    n = A[0].ndim
    if any(a.ndim != n for a in A):
        raise MValueError('all the input array dimensions must match')
    if n == 0:
        raise MValueError('zero-dimensional arrays cannot be concatenated')
    axis = norm_axis(axis, n)
    d = promote_arr(*A) if dtype is None else dt(dtype)
    return Arr(tn.concat([a.val for a in A], axis), d)


def stack(arrs, axis=0, out=None):
    A = [arr_of(a) for a in arrs]
    if not A:
        raise MValueError('need at least one array to stack')
    sh = A[0].shape
    if any(a.shape != sh for a in A):
        raise MValueError('all input arrays must have the same shape')
    ax = norm_axis(axis, A[0].ndim + 1)
    return Arr(tn.concat([tn.insert_axis(a.val, ax) for a in A], ax), promote_arr(*A))


def vstack(arrs):
    return concatenate([atleast_2d(a) for a in arrs], 0)


def hstack(arrs):
    A = [atleast_1d(a) for a in arrs]
    return concatenate(A, 0 if A[0].ndim == 1 else 1)


def pad(a, pad_width, mode='constant', constant_values=0, **kw):
    a = arr_of(a)
    if mode != 'constant' or kw or (isinstance(constant_values, numbers.Number) and constant_values != 0):
        raise Unsupported('pad mode')
    if isinstance(pad_width, (numbers.Integral, Dim)):
        pw = [(pad_width, pad_width)] * a.ndim
    else:
        pw = [tuple(p) if hasattr(p, '__iter__') else (p, p) for p in pad_width]
    if len(pw) == 1 and a.ndim > 1:
        pw = pw * a.ndim
    if len(pw) != a.ndim:
        raise MValueError('operands could not be broadcast together')
    t = a.val
    for i, (l, r) in enumerate(pw):
        l, r = norm_dim(l), norm_dim(r)
        for x in (l, r):
            if (known_le(0, x) is False):
                raise MValueError("index can't contain negative values")
        if l == 0 and r == 0:
            continue
        t = tn.embed_axis(t, i, l, l + prod(t.axes[i]) + r)
    return Arr(t, a.dtype)


def sum_(a, axis=None, dtype=None, out=None, keepdims=False):
    if isinstance(a, (list, tuple)) and not has_arr(a):
        a = array(a)
    if isinstance(a, real.ndarray):
        return real.sum(a, axis=axis, dtype=dtype, keepdims=keepdims)
    if not isinstance(a, (Arr, list, tuple, numbers.Number, Dim)):
        a = list(a)
    a = arr_of(a)
    n = a.ndim
    if axis is None:
        ax = list(range(n))
    else:
        ax = [norm_axis(x, n) for x in (axis if hasattr(axis, '__iter__') else (axis,))]
        if len(set(ax)) != len(ax):
            raise MValueError("duplicate value in 'axis'")
    keep = [[i] for i in range(n) if i not in ax]
    t = tn.self_einsum(a.val, keep, [[i] for i in ax])
    if keepdims:
        for i in sorted(ax):
            t = tn.insert_axis(t, i)
    d = a.dtype if a.dtype.kind in 'fc' else real.dtype(int)
    if dtype is not None:
        d = dt(dtype)
    return wrap(t, d)


def repeat(a, repeats, axis=None):
    a = arr_of(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    axis = norm_axis(axis, a.ndim)
    n = norm_dim(repeats)
    t = tn.insert_axis(a.val, axis + 1)
    sh = list(t.shape)
    sh[axis + 1] = n
    t = broadcast_ten(t, tuple(sh))
    new = list(a.shape)
    new[axis] = new[axis] * n
    return Arr(tn.reshape(t, tuple(new)), a.dtype)


def tile(a, reps):
    a = arr_of(a)
    if isinstance(reps, (numbers.Integral, Dim)):
        reps = (reps,)
    reps = tuple(norm_dim(r) for r in reps)
    n = max(len(reps), a.ndim)
    reps = (1,) * (n - len(reps)) + reps
    t = a.val
    while t.ndim < n:
        t = tn.insert_axis(t, 0)
    base = t.shape
    t = tn.reshape(t, tuple(x for s in base for x in (1, s)))
    t = broadcast_ten(t, tuple(x for r, s in zip(reps, base) for x in (r, s)))
    return Arr(tn.reshape(t, tuple(r * s for r, s in zip(reps, base))), a.dtype)


def take(a, indices, axis=None, **kw):
    a = arr_of(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    if isinstance(indices, slice) or indices is None or indices is Ellipsis:
        raise MTypeError('int() argument must be a number, not %r' % (type(indices).__name__,))
    axis = norm_axis(axis, a.ndim)
    idx = (slice(None),) * axis + (indices,)
    r = a[idx]
    return r.copy() if isinstance(r, Arr) else r


def flip(a, axis=None):
    a = arr_of(a)
    ax = range(a.ndim) if axis is None else ([axis] if not hasattr(axis, '__iter__') else axis)
    ax = {norm_axis(x, a.ndim) for x in ax}
    return a[tuple(slice(None, None, -1) if i in ax else slice(None) for i in range(a.ndim))]


def split_(a, n, axis=0):
    a = arr_of(a)
    axis = norm_axis(axis, a.ndim)
    d = a.shape[axis]
    if hasattr(n, '__iter__'):
        cuts = [0] + [norm_dim(x) for x in n] + [d]
    else:
        q = exact_div(d, n)
        if q is None:
            raise MValueError('array split does not result in an equal division')
        cuts = [q * i for i in range(n + 1)]
    return [a[(slice(None),) * axis + (slice(x, y),)] for x, y in zip(cuts[:-1], cuts[1:])]


def isscalar(x):
    if isinstance(x, Sca) or isinstance(x, Dim):
        return True
    if isinstance(x, Arr):
        return False
    return bool(real.isscalar(x))


def common_type(*arrs):
    ds = []
    for a in arrs:
        d = arr_of(a).dtype if not isinstance(a, Arr) else a.dtype
        if d.kind == 'b':
            raise MTypeError("can't get common type for non-numeric array")
        ds.append(d if d.kind in 'fc' else real.dtype(float))
    return real.result_type(*ds).type


def result_type(*args):
    return promote(*[a if not isinstance(a, type) else real.dtype(a) for a in args])


def iscomplexobj(x):
    return arr_of(x).dtype.kind == 'c' if is_abs(x) else real.iscomplexobj(x)


def isrealobj(x):
    return not iscomplexobj(x)


def allclose(a, b, *tol, **kw):
    A, B = ten_of(a), ten_of(b)
    if EV.conds is not None:
        for t in list(tol) + list(kw.values()):
            if is_abs(t) or isinstance(t, numbers.Number):
                EV.conds.append(('tol', ten_of(t), ten_of(t)))
    try:
        if tn.equal(A, B):
            return True
    except Exception:
        pass
    return absbool(('allclose', A.key(), B.key()), A, B)


def array_equal(a, b, **kw):
    if not has_arr([a, b]):
        A, B = real.asarray(a, dtype=object), real.asarray(b, dtype=object)
        return A.shape == B.shape and all(x == y for x, y in zip(A.flat, B.flat))
    A, B = arr_of(a), arr_of(b)
    if A.shape != B.shape:
        return False
    if tn.equal(A.val, B.val):
        return True
    return absbool(('aeq', A.val.key(), B.val.key()), A.val, B.val)


def real_(x):
    if isinstance(x, numbers.Number):
        return x.real
    return arr_of(x).real


def imag_(x):
    if isinstance(x, numbers.Number):
        return x.imag
    return arr_of(x).imag


def where(c, *args):
    if isinstance(c, Arr):
        k = concrete_arr(c)
        c = c if k is None else k
    if not args:
        if isinstance(c, Arr):
            raise Unsupported('np.where on abstract data')
        return real.nonzero(real.asarray(c))
    if isinstance(c, AbsBool):
        c = bool(c)
    x, y = args
    if not is_abs([x, y]) and not isinstance(c, Arr):
        return real.where(c, x, y)
    d = promote(x, y)
    C = ten_of(c)
    sh = bshape(C.shape, ten_of(x).shape, ten_of(y).shape)
    C = broadcast_ten(C, sh)
    if isinstance(c, Arr):
        X, Y = broadcast_ten(ten_of(x), sh), broadcast_ten(ten_of(y), sh)
        return Arr(tn.func('mask', [Y, C, X], X.axes, d.kind != 'c'), d)
    nc = tn.add(tn.ones(C.axes), tn.scale(C, -1))
    return Arr(tn.add(mult(C, ten_of(x)), mult(nc, ten_of(y))), d)


def minmax(op):
    def f(a, b, **kw):
        if kw:
            raise Unsupported('np.%s arguments' % op)
        if isinstance(a, Dim) and not has_arr(b) or isinstance(b, Dim) and not has_arr(a):
            return (D.dmin if op == 'minimum' else D.dmax)(a, b)
        if not is_abs([a, b]):
            return getattr(real, op)(a, b)
        A, B = ten_of(a), ten_of(b)
        if EV.conds is not None:
            EV.conds.append((op, A, B))
        if op == 'maximum' and EV.assume_nonneg and (not B.terms or not A.terms):
            return wrap(A if not B.terms else B, promote(a, b))      # clipping of non-negative values
        sh = bshape(A.shape, B.shape)
        A, B = broadcast_ten(A, sh), broadcast_ten(B, sh)
        return wrap(tn.func(op, [A, B], A.axes, True), promote(a, b))
    return f


# ---------------------------------------------------------------------------------------------
# decompositions
# ---------------------------------------------------------------------------------------------
def _orient(E):
    """Pick the orientation (conjugated or not) with the smaller key, so that decompositions of E and
    conj(E) share their names."""
    k1, k2 = E.key(), tn.conj(E).key()
    return (E, False, k1) if k1 <= k2 else (tn.conj(E), True, k2)


def _factor(name, axes, cj, isreal):
    t = tn.opaque(name, axes, isreal)
    return tn.conj(t) if cj else t


def _unit(total, axis):
    """Factor of a vanishing vector: the first unit vector."""
    return tn.embed_axis(Ten(((), ()), [(1, (), ((), ()))]), axis, 0, total)


def qr(a, mode='reduced', **kw):
    a = arr_of(a)
    if a.ndim != 2:
        raise MLinAlgError('%d-dimensional array given. Array must be two-dimensional' % a.ndim)
    E, cj, key = _orient(a.val)
    rows, cols = E.axes
    m, n = prod(rows), prod(cols)
    k = D.dmin(m, n)
    isreal = a.dtype.kind != 'c'
    kc = comps_of(k)
    qn, rn = ('Q', key), ('R', key)
    Q = _factor(qn, (rows, kc), cj, isreal)
    R = _factor(rn, (kc, cols), cj, isreal)
    nr = len(rows)
    if k == 1:
        # no connecting wire: Q R = E as an outer product of a vector and a vector; keep it exact
        if m == 1:
            # Q is a phase; choose R = E, Q = 1 up to a unit factor that cancels in every use
            Q, R = Ten(((), ()), [(1, (), ((), ()))]), a.val
        else:
            nv = tn.fn('sqrt', tn.tensordot(tn.conj(a.val), a.val, [0, 1], [0, 1]))
            Q = tn.outer(tn.inv(nv), a.val) if nv.terms else _unit(m, 0)
            R = tn.insert_axis(tn.insert_axis(nv, 0), 0)
    else:
        ST = tn.ST
        ST.iso.setdefault(qn, [tuple(range(nr))])
        if k == m and (not isinstance(k, Dim) or True):
            if k == m:
                ST.iso[qn] = [tuple(range(nr)), (nr,)]
        ST.pairs.setdefault(qn, {})[nr] = (rn, 0, E, 'L')
        ST.pairs.setdefault(rn, {})[0] = (qn, nr, E, 'R')
    d = a.dtype if a.dtype.kind in 'fc' else real.dtype(float)
    if mode in ('r',):
        return Arr(R, d)
    if mode in ('complete', 'full') and k != m:
        # square Q: complement columns
        Qp = _factor(('Qp', key), (rows, comps_of(m - k)), cj, isreal)
        tn.ST.iso.setdefault(('Qp', key), [tuple(range(nr))])
        Q = tn.add(tn.embed_axis(Q, 1, 0, m), tn.embed_axis(Qp, 1, k, m))
        R = tn.embed_axis(R, 0, 0, m)
    elif mode not in ('reduced', 'economic', 'complete', 'full'):
        raise Unsupported('qr mode %r' % mode)
    return Arr(Q, d), Arr(R, d)


def scipy_qr(a, overwrite_a=False, lwork=None, mode='full', pivoting=False, check_finite=True):
    if pivoting:
        raise Unsupported('pivoted qr')
    return qr(a, mode=mode)


def svd(a, full_matrices=True, compute_uv=True, **kw):
    a = arr_of(a)
    if a.ndim != 2:
        raise MLinAlgError('%d-dimensional array given. Array must be two-dimensional' % a.ndim)
    E, cj, key = _orient(a.val)
    rows, cols = E.axes
    m, n = prod(rows), prod(cols)
    k = D.dmin(m, n)
    isreal = a.dtype.kind != 'c'
    kc = comps_of(k)
    un, sn, vn = ('U', key), ('S', key), ('V', key)
    EV.calls['svd'] = EV.calls.get('svd', 0) + 1
    d = a.dtype if a.dtype.kind in 'fc' else real.dtype(float)
    rd = real_dtype(d)
    if k == 1 and not isinstance(k, Dim):
        nv = tn.fn('sqrt', tn.tensordot(tn.conj(a.val), a.val, [0, 1], [0, 1]))
        s = tn.insert_axis(nv, 0)
        if n == 1 and not isinstance(n, Dim):
            U = tn.outer(tn.inv(nv), a.val) if nv.terms else _unit(m, 0)
            V = Ten(((), ()), [(1, (), ((), ()))])
        else:
            V = tn.outer(tn.inv(nv), a.val) if nv.terms else _unit(n, 1)
            U = Ten(((), ()), [(1, (), ((), ()))])
    else:
        U = _factor(un, (rows, kc), cj, isreal)
        V = _factor(vn, (kc, cols), cj, isreal)
        s = tn.opaque(sn, (kc,), True)
        ST = tn.ST
        nr, nc = len(rows), len(cols)
        ST.iso[un] = [tuple(range(nr))] + ([(nr,)] if k == m else [])
        ST.iso[vn] = [tuple(range(1, nc + 1))] + ([(0,)] if k == n else [])
        ST.svd[sn] = (un, vn, E)
    sa = Arr(s, rd)
    if EV.sv_hook is not None and not isinstance(k, Dim):
        sa = real.asarray(EV.sv_hook(k), dtype=rd)
    if not compute_uv:
        return sa
    if full_matrices:
        if k != m:
            Up = _factor(('Up', key), (rows, comps_of(m - k)), cj, isreal)
            tn.ST.iso.setdefault(('Up', key), [tuple(range(len(rows)))])
            U = tn.add(tn.embed_axis(U, 1, 0, m), tn.embed_axis(Up, 1, k, m))
        if k != n:
            Vp = _factor(('Vp', key), (comps_of(n - k), cols), cj, isreal)
            nb = len(comps_of(n - k))
            tn.ST.iso.setdefault(('Vp', key), [tuple(range(nb, len(cols) + nb))])
            V = tn.add(tn.embed_axis(V, 0, 0, n), tn.embed_axis(Vp, 0, k, n))
    return Arr(U, d), sa, Arr(V, d)


def norm(a, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2, 'fro') or axis is not None or keepdims:
        raise Unsupported('norm arguments')
    a = arr_of(a)
    if ord == 2 and a.ndim == 2:
        raise Unsupported('spectral norm')
    x = list(range(a.ndim))
    t = tn.tensordot(tn.conj(a.val), a.val, x, x)
    return wrap(tn.fn('sqrt', t), real_dtype(a.dtype) if a.dtype.kind in 'fc' else real.dtype(float))


def pinv(a, *args, **kw):
    a = arr_of(a)
    t = tn.func('pinv', [a.val], (a.val.axes[1], a.val.axes[0]), a.dtype.kind != 'c')
    return Arr(t, a.dtype)


def lu(a, permute_l=False, **kw):
    a = arr_of(a)
    if not permute_l:
        raise Unsupported('lu')
    m, n = a.shape
    k = D.dmin(m, n)
    L = tn.func('LU', [a.val], (a.val.axes[0], comps_of(k)), a.dtype.kind != 'c')
    U = tn.func('LUu', [a.val], (comps_of(k), a.val.axes[1]), a.dtype.kind != 'c')
    return Arr(L, a.dtype), Arr(U, a.dtype)


def eigsh(A, k=6, M=None, sigma=None, which='LM', v0=None, ncv=None, maxiter=None, tol=0, **kw):
    if isinstance(A, (Sparse, LinOp)):
        A = A.a
    A = arr_of(A)
    EV.eigs.append((A, v0, dict(k=k, which=which, tol=tol)))
    n = A.shape[0]
    if A.ndim != 2 or A.shape[1] != n:
        raise MValueError('expected square matrix')
    ev = tn.func('eigval', [A.val], (comps_of(k),), True, (which,))
    vec = tn.func('eigvec', [A.val], (A.val.axes[0], comps_of(k)), A.dtype.kind != 'c', (which, str(k)))
    return Arr(ev, real.dtype(float)), Arr(vec, A.dtype)


def svds(A, k=6, **kw):
    """k singular triplets, ascending order (scipy convention)."""
    if isinstance(A, (Sparse, LinOp)):
        A = A.a
    A = arr_of(A)
    u, s, v = svd(A, full_matrices=False)
    k = norm_dim(k)
    if not (known_le(k + 1, D.dmin(*A.shape)) is not False):
        raise MValueError('`k` must be an integer satisfying `0 < k < min(A.shape)`.')
    sel = slice(None, k)
    return u[:, sel][:, ::-1], s[sel][::-1], v[sel][::-1]


class LinOp(object):
    """scipy.sparse.linalg.LinearOperator of an abstract matrix."""

    def __init__(self, a):
        self.a = a

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        raise Unsupported('LinOp.%s' % k)

    @property
    def shape(self):
        return self.a.shape

    @property
    def dtype(self):
        return self.a.dtype

    @property
    def ndim(self):
        return 2

    @property
    def H(self):
        return LinOp(self.a.conj().T)

    def adjoint(self):
        return self.H

    @property
    def T(self):
        return LinOp(self.a.T)

    def transpose(self):
        return self.T

    def __mul__(self, x):
        if isinstance(x, LinOp):
            return LinOp(dot(self.a, x.a))
        if isscalar(x):
            return LinOp(self.a * x)
        return dot(self.a, x)

    def dot(self, x):
        return self * x
    __matmul__ = __mul__
    matvec = matmat = dot

    def rmatvec(self, x):
        return dot(self.a.conj().T, x)
    rmatmat = rmatvec


def aslinearoperator(a):
    if isinstance(a, LinOp):
        return a
    if isinstance(a, Sparse):
        return LinOp(a.a)
    return LinOp(arr_of(a))


# ---------------------------------------------------------------------------------------------
# sparse matrices: an abstract matrix with `*` meaning matrix product
# ---------------------------------------------------------------------------------------------
class Sparse(object):
    __array_priority__ = 1e7
    __array_ufunc__ = None

    def __init__(self, a):
        self.a = arr_of(a)

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        raise Unsupported('Sparse.%s' % k)

    @property
    def shape(self):
        return self.a.shape

    @property
    def dtype(self):
        return self.a.dtype

    @property
    def T(self):
        return Sparse(self.a.T)

    @property
    def H(self):
        return Sparse(self.a.T.conj())

    def transpose(self):
        return self.T

    def conj(self):
        return Sparse(self.a.conj())
    conjugate = conj

    def toarray(self, *a, **k):
        return self.a
    todense = toarray

    def tocsr(self, *a, **k):
        return self
    tocsc = tocoo = tobsr = tolil = copy = asformat = tocsr

    def dot(self, o):
        return smatmul(self, o)

    def __matmul__(self, o):
        return smatmul(self, o)

    def __rmatmul__(self, o):
        return smatmul(o, self)

    def __mul__(self, o):
        if isscalar(o):
            return Sparse(self.a * o)
        return smatmul(self, o)

    def __rmul__(self, o):
        if isscalar(o):
            return Sparse(o * self.a)
        return smatmul(o, self)

    def __add__(self, o):
        if isinstance(o, Sparse):
            if o.shape != self.shape:
                raise MValueError('inconsistent shapes')
            return Sparse(self.a + o.a)
        if isscalar(o):
            if isinstance(o, numbers.Number) and o == 0:
                return Sparse(self.a)
            raise Unsupported('sparse + scalar')
        return self.a + o

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        if isinstance(o, Sparse):
            return Sparse(self.a - o.a)
        return self.a - o

    def __neg__(self):
        return Sparse(-self.a)

    def __truediv__(self, o):
        return Sparse(self.a / o)


def smatmul(a, b):
    both = isinstance(a, Sparse) and isinstance(b, Sparse)
    x = a.a if isinstance(a, Sparse) else a
    y = b.a if isinstance(b, Sparse) else b
    r = dot(x, y)
    return Sparse(r) if both else r


def sp_eye(m, n=None, k=0, dtype=float, format=None):
    return Sparse(eye(m, n, k, dtype))


def sp_kron(A, B, format=None):
    a = A.a if isinstance(A, Sparse) else A
    b = B.a if isinstance(B, Sparse) else B
    return Sparse(kron(a, b))


def sp_matrix(fmt):
    def f(arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, Sparse):
            return arg
        if isinstance(arg, tuple) and len(arg) == 3:
            data, indices, indptr = arg
            if not isinstance(indices, real.ndarray):
                indices = real.asarray([int(x) for x in indices])
            if not isinstance(indptr, real.ndarray):
                indptr = real.asarray([int(x) for x in indptr])
            data = arr_of(data)
            n = len(indptr) - 1
            rows, cols = [], []
            for j in range(n):
                for k in range(int(indptr[j]), int(indptr[j + 1])):
                    rows.append(int(indices[k]))
                    cols.append(j)
            if fmt == 'csr':
                rows, cols = cols, rows
            return Sparse(_scatter_coo(data, rows, cols, shape))
        if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
            data, (rows, cols) = arg
            return Sparse(_scatter_coo(arr_of(data), [int(x) for x in rows], [int(x) for x in cols], shape))
        return Sparse(arr_of(arg))
    f.__name__ = fmt + '_matrix'
    return f


def _scatter_coo(data, rows, cols, shape):
    if len(rows) > 64:
        raise Unsupported('large sparse matrix')
    m, n = shape
    if data.ndim != 1 or data.shape[0] != len(rows):
        raise MValueError('indices and data should have the same size')
    t = tn.zeros([comps_of(m), comps_of(n)])
    parts = [t]
    for k, (r, c) in enumerate(zip(rows, cols)):
        if not (0 <= r < m and 0 <= c < n):
            raise MValueError('index exceeds matrix dimension')
        e = tn.drop_axis(tn.slice_axis(data.val, 0, k, 1), 0)
        parts.append(tn.outer(tn.outer(e, tn.basis(m, r)), tn.basis(n, c)))
    return Arr(tn.add(*parts), data.dtype)


# ---------------------------------------------------------------------------------------------
# random sources
# ---------------------------------------------------------------------------------------------
class RNG(object):
    """Abstract random source; every draw is recorded."""

    def __init__(self, seed=None, name=None):
        self.name = name or 'RandomState'
        self.n = 0
        if seed is None and name is None:
            EV.draw(('entropy', 'RandomState()', None))

    def _draw(self, what, shape, dtype=float):
        EV.draw((self.name, what, shape))
        self.n += 1
        name = ('rnd', self.name, what, self.n)
        shape = () if shape is None else shape_arg(shape)
        t = tn.opaque(name, [comps_of(s) for s in shape], True)
        return wrap(t, real.dtype(dtype))

    def randn(self, *shape):
        return self._draw('randn', shape)

    def rand(self, *shape):
        return self._draw('rand', shape)

    def standard_normal(self, size=None, **kw):
        return self._draw('randn', size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        r = self._draw('randn', size)
        return r * scale + loc if (scale != 1.0 or loc != 0.0) else r

    def random_sample(self, size=None):
        return self._draw('rand', size)
    random = ranf = sample = random_sample

    def uniform(self, low=0.0, high=1.0, size=None):
        r = self._draw('rand', size)
        return r * (high - low) + low if (low != 0.0 or high != 1.0) else r

    def choice(self, a, size=None, replace=True, p=None):
        EV.draw((self.name, 'choice', (a, size, replace, p)))
        self.n += 1
        hook = getattr(self, 'choice_hook', None)
        if hook is not None:
            return hook(a, size, replace, p)
        raise Unsupported('random choice')

    def multinomial(self, n, pvals, size=None):
        EV.draw((self.name, 'multinomial', (n, pvals, size)))
        self.n += 1
        raise Unsupported('multinomial draw')

    def randint(self, *a, **k):
        EV.draw((self.name, 'randint', (a, k)))
        self.n += 1
        raise Unsupported('randint draw')

    def permutation(self, x):
        EV.draw((self.name, 'permutation', x))
        raise Unsupported('permutation draw')

    def shuffle(self, x):
        EV.draw((self.name, 'shuffle', None))
        raise Unsupported('shuffle')

    def seed(self, *a):
        EV.draw((self.name, 'seed', None))

    def RandomState(self, seed=None):
        if self.name != 'global':
            raise MAttributeError("'RandomState' object has no attribute 'RandomState'")
        return RNG(seed, name='RandomState(%r)' % (seed,) if seed is not None else None)

    def default_rng(self, seed=None):
        return RNG(seed, name='default_rng(%r)' % (seed,) if seed is not None else None)

    def __getattr__(self, k):
        raise Unsupported('random.%s' % k)


GLOBAL_RNG = RNG(name='global')


# ---------------------------------------------------------------------------------------------
# h5py
# ---------------------------------------------------------------------------------------------
class Dataset(object):
    def __init__(self, arr, owner=None, cell=None):
        self._cell = [arr] if cell is None else cell
        self._owner = owner

    @property
    def _data(self):
        return self._cell[0]

    @property
    def _arr(self):
        if self._owner is not None and not self._owner.open:
            raise MValueError('Not a dataset (the file is closed)')
        return self._data

    @property
    def ndim(self):
        return len(self._arr.shape)

    @property
    def shape(self):
        return self._arr.shape

    @property
    def dtype(self):
        return self._arr.dtype

    def __getitem__(self, k):
        if k == () or k is Ellipsis or (isinstance(k, slice) and k == slice(None)):
            return Arr(self._arr.val, self._arr.dtype) if isinstance(self._arr, Arr) else real.array(self._arr)
        return Arr(self._arr.val, self._arr.dtype)[k]

    def __setitem__(self, k, v):
        if not (k == () or k is Ellipsis or (isinstance(k, slice) and k == slice(None))):
            raise Unsupported('partial write to a dataset')
        old, new = self._arr, arr_of(v)
        if tuple(old.shape) != tuple(new.shape):
            raise Unsupported('dataset write with broadcasting')
        new = new.astype(old.dtype)
        self._cell[0] = Arr(new.val, new.dtype)

    def __array__(self, *a, **k):
        return self[()]

    def __len__(self):
        return len(self._arr)

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        if k == 'value':
            raise MAttributeError("'Dataset' object has no attribute 'value'")
        raise Unsupported('Dataset.%s' % k)


class Attrs(dict):
    def create(self, k, v, *a, **kw):
        self[k] = v

    def __setitem__(self, k, v):
        # h5py stores python sequences of numbers as arrays
        if isinstance(v, (tuple, list)) and all(isinstance(x, numbers.Integral) for x in v):
            v = real.array(v)
        elif v is None or isinstance(v, (dict, set)):
            raise MTypeError('Object dtype has no native HDF5 equivalent')
        elif isinstance(v, (tuple, list)) and any(x is None for x in v):
            raise MTypeError('Object dtype has no native HDF5 equivalent')
        elif isinstance(v, numbers.Integral) and not isinstance(v, bool):
            v = real.int64(v)
        dict.__setitem__(self, k, v)

    def __getitem__(self, k):
        if k not in self:
            raise MKeyError("can't open attribute")
        return dict.__getitem__(self, k)


class Group(object):
    def __init__(self, name='/', like=None):
        self._attrs = Attrs() if like is None else like._attrs
        self._items = {} if like is None else like._items
        self.name = name
        self.root = self
        self.open = True

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        raise Unsupported('Group.%s' % k)

    def _check(self):
        if not self.root.open:
            raise MValueError('Invalid location identifier (the file is closed)')

    @property
    def attrs(self):
        self._check()
        return self._attrs

    @property
    def items_(self):
        self._check()
        return self._items

    def require_dataset(self, name, shape, dtype=None, exact=False, **kw):
        if name not in self.items_:
            return self.create_dataset(name, shape, dtype, **kw)
        d = self[name]
        if tuple(d.shape) != tuple(shape):
            raise MTypeError('Shapes do not match (existing %s vs new %s)' % (d.shape, shape))
        if dtype is not None and not (d.dtype == dtype if exact else real.can_cast(dtype, d.dtype)):
            raise MTypeError('Datatypes cannot be safely cast')
        return d

    def pop(self, k, *default):
        if k not in self.items_ and default:
            return default[0]
        v = self[k]
        del self.items_[k]
        return v

    def get(self, k, default=None):
        return self[k] if k in self.items_ else default

    def __delitem__(self, k):
        if k not in self.items_:
            raise MKeyError("Couldn't delete link (it doesn't exist)")
        del self.items_[k]

    def create_dataset(self, name, shape=None, dtype=None, data=None, **kw):
        if data is None:
            data = zeros(shape, dtype if dtype is not None else real.float32)
        if dtype is not None:
            data = arr_of(data).astype(dtype)
        self[name] = data
        return self.items_[name]

    def create_group(self, name):
        if name in self.items_:
            raise MValueError('Unable to create group (name already exists)')
        self.items_[name] = Group(name)
        return self[name]

    def require_group(self, name):
        return self[name] if name in self.items_ else self.create_group(name)

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            raise MTypeError('A name should be string or bytes, not %r' % type(k))
        if k in self.items_:
            raise MValueError('Unable to create dataset (name already exists)')
        self.items_[k] = Dataset(Arr(v.val, v.dtype) if isinstance(v, Arr) else real.array(v))

    def __getitem__(self, k):
        if not isinstance(k, str):
            raise MTypeError('Accessing a group is done with bytes or str, not %r' % type(k))
        if k not in self.items_:
            raise MKeyError('Unable to open object (object %r doesn\'t exist)' % k)
        v = self.items_[k]
        if isinstance(v, Group):
            g = Group(v.name, like=v)
            g.root = self.root
            return g
        return Dataset(v._data, self.root, v._cell)

    def __contains__(self, k):
        return k in self.items_

    def __len__(self):
        return len(self.items_)

    def __iter__(self):
        return iter(sorted(self.items_))     # h5py iterates in alphabetical order by default

    def keys(self):
        return sorted(self.items_)

    def values(self):
        return [self[k] for k in self.keys()]

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        self.open = False

    def flush(self):
        pass


class Disk(object):
    """In-memory stand-in for the file system seen by h5py.File."""

    def __init__(self):
        self.files = {}

    def File(self, path, mode='r', **kw):
        if mode in ('w', 'w-', 'x'):
            if mode != 'w' and path in self.files:
                raise MOSError('file exists')
            self.files[path] = Group()
        elif mode in ('r', 'r+'):
            if path not in self.files:
                raise MOSError('Unable to open file')
        elif mode == 'a':
            self.files.setdefault(path, Group())
        else:
            raise MValueError('Invalid mode')
        return Group('/', like=self.files[path])


DISK = Disk()
