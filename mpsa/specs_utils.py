"""Dense helper functions (C20)."""
import itertools
import numpy as real
from . import tn, npm, evalten
from .npm import Arr
from .cases import case
from .specs_core import ein, flat
from .specs_more import outer
from .world import F8, C16

ALIAS = ('alias', 'dtype')


# -- partial trace -----------------------------------------------------------------------------
def _ptrace(n, out):
    @case('partial_trace[%d,%s]' % (n, out), 'C20', aspects=('dtype',))
    def f(w):
        d = [w.dim('d%d' % i) for i in range(n)]
        X = w.array('A', d + d)
        fn = w.fn('utils.extmath.partial_trace')
        ins = [('i', k) for k in range(n)] + [('i', k) if k in out else ('j', k) for k in range(n)]
        keep = [k for k in range(n) if k not in out]
        want = ein([ins], [('i', k) for k in keep] + [('j', k) for k in keep], X)
        w.result(w.call(fn, X, list(out)), want, what='partial_trace(%s)' % (out,), f=fn, fresh=False)
        w.same(w.call(fn, X, tuple(out)), want, 'partial_trace(%s)' % (out,), w.locate(fn))


for _n in (1, 2, 3, 4):
    for _k in range(_n + 1):
        for _o in itertools.combinations(range(_n), _k):
            _ptrace(_n, _o)


# -- Kronecker product -------------------------------------------------------------------------
def kron(a, b):
    """Block definition of the Kronecker product for arrays with the same number of axes."""
    n = a.ndim
    o = outer(a, b)
    o = o.transpose(flat([k, n + k] for k in range(n)))
    return o.reshape(tuple(x * y for x, y in zip(a.shape, b.shape)))


def _mkron(n, nd):
    @case('mkron[%d,%d]' % (n, nd), 'C20', aspects=('dtype',))
    def f(w):
        ms = [w.array('ABCDE'[i], [w.dim('d%d_%d' % (i, j)) for j in range(nd)]) for i in range(n)]
        fn = w.fn('utils.extmath.mkron')
        want = ms[0]
        for m in ms[1:]:
            want = kron(want, m)
        w.result(w.call(fn, *ms), want, what='mkron of %d arrays' % n, f=fn, fresh=False)


for _n in (1, 2, 3, 4, 5):
    for _nd in (1, 2):
        _mkron(_n, _nd)


# -- matdot ------------------------------------------------------------------------------------
def _matdot(na, nb):
    @case('matdot[%d,%d]' % (na, nb), 'C20', aspects=('dtype',))
    def f(w):
        k = w.dim('k')
        A = w.array('A', [w.dim('a%d' % i) for i in range(na - 1)] + [k])
        B = w.array('B', [k] + [w.dim('b%d' % i) for i in range(nb - 1)])
        fn = w.fn('utils.extmath.matdot')
        la, lb = [('a', i) for i in range(na - 1)], [('b', i) for i in range(nb - 1)]
        w.result(w.call(fn, A, B), ein([la + ['k'], ['k'] + lb], la + lb, A, B), what='matdot', f=fn, fresh=False)


for _a in (1, 2, 3):
    for _b in (1, 2, 3):
        _matdot(_a, _b)


@case('matdot_axes', 'C20', aspects=('dtype',))
def f(w):
    p, q, r, s = [w.dim(x) for x in ('p', 'q', 'r', 's')]
    A, B = w.array('A', [p, q, r]), w.array('B', [q, s, p])
    fn = w.fn('utils.extmath.matdot')
    w.result(w.call(fn, A, B, axes=((0, 1), (2, 0))), ein([['p', 'q', 'r'], ['q', 's', 'p']], ['r', 's'], A, B),
             what='matdot(axes)', f=fn, fresh=False)
    w.same(w.call(fn, A, B, ((-2,), (0,))), ein([['p', 'q', 'r'], ['q', 's', 'P']], ['p', 'r', 's', 'P'], A, B),
           'matdot(axes)', w.locate(fn))


# -- block-diagonal sums -----------------------------------------------------------------------
def bd(w, ms, axes):
    """Sum of zero-padded arrays."""
    nd = ms[0].ndim
    axes = [a % nd for a in axes]
    tot = {a: sum(m.shape[a] for m in ms) for a in axes}
    res = None
    off = {a: 0 for a in axes}
    for m in ms:
        x = m
        for a in axes:
            pre = list(x.shape)
            pre[a] = off[a]
            post = list(x.shape)
            post[a] = tot[a] - off[a] - m.shape[a]
            parts = []
            if off[a] != 0:
                parts.append(npm.zeros(pre, dtype=m.dtype))
            parts.append(x)
            if not (isinstance(post[a], int) and post[a] == 0):
                parts.append(npm.zeros(post, dtype=m.dtype))
            x = npm.concatenate(parts, axis=a) if len(parts) > 1 else x
        res = x if res is None else res + x
        for a in axes:
            off[a] = off[a] + m.shape[a]
    return res


def _bdiag(nd, n, axes):
    @case('block_diag[%d,%d,%s]' % (nd, n, axes), 'C20', aspects=('dtype',))
    def f(w):
        ax = [a % nd for a in axes]
        ms = [w.array('ABC'[i], [([2, 3, 4][i] + k if k in ax else k + 2) for k in range(nd)]) for i in range(n)]
        fn = w.fn('utils.extmath.block_diag')
        want = bd(w, ms, axes)
        for arg in (tuple(axes), list(axes)):
            w.result(w.call(fn, tuple(ms), axes=arg), want, what='block_diag(axes=%s)' % (axes,), f=fn, fresh=False)


for _nd, _axs in ((1, [(0,), (-1,)]), (2, [(0, 1), (1, 0), (0,), (1,), (0, -1), (-1,), (-2, -1), (-1, 0)]),
                  (3, [(0, 1), (0, 2), (2, 0), (1, -1), (-1,), (1,), (0, 1, 2), (0, -1), (-3, -1), (2, 1)]),
                  (4, [(1, -1), (0, 3), (2, -4), (3, 1)])):
    for _ax in _axs:
        for _n in (1, 2, 3):
            _bdiag(_nd, _n, _ax)


@case('block_diag_default', 'C20', aspects=('dtype',))
def f(w):
    A, B = w.array('A', (2, 3, 2)), w.array('B', (3, 2, 2))
    fn = w.fn('utils.extmath.block_diag')
    w.result(w.call(fn, [A, B]), bd(w, [A, B], (0, 1)), what='block_diag', f=fn, fresh=False)


# -- singular value decompositions -------------------------------------------------------------
def ctrans(a):
    return a.conj().T


def check_factors(w, fn, u, s, v, M, k, exact, ref=None):
    """u, v isometric, at most k components, product and singular values."""
    where = w.locate(fn)
    m, n = M.shape
    c = s.shape[0]
    w.require(u.shape == (m, c) and v.shape == (c, n), 'factors of shapes %s %s %s for a %dx%d matrix' % (
        u.shape, s.shape, v.shape, m, n), where)
    w.require(c == min(k, min(m, n)) if exact is not None else c <= k,
              '%d components returned, %d requested from a %dx%d matrix' % (c, k, m, n), where)
    e = Arr(tn.eye((c,)), real.dtype(float))
    if isinstance(c, int) and c == 1:
        e = npm.ones((1, 1))
    w.same(npm.dot(ctrans(u), u), e, 'left singular vectors are not orthonormal', where)
    w.same(npm.dot(v, ctrans(v)), e, 'right singular vectors are not orthonormal', where)
    if ref is None:
        ref = npm.svd(M, full_matrices=False)
    ru, rs, rv = ref
    if exact:
        w.same(s, rs[:c], 'singular values', where)
        w.same(npm.dot(u * s, v), npm.dot(ru[:, :c] * rs[:c], rv[:c]), 'product of the factors', where)


def _tsvd(m, n, k, cplx):
    @case('truncated_svd[%d,%d,%d,%s]' % (m, n, k, cplx), 'C20', aspects=(), variants=False)
    def f(w):
        A = w.array('A', (m, n), C16 if cplx else F8)
        fn = w.fn('utils.extmath.truncated_svd')
        u, s, v = w.call(fn, A, k)
        check_factors(w, fn, npm.arr_of(u), npm.arr_of(s), npm.arr_of(v), A, k, True)


for _m, _n2 in ((3, 3), (4, 2), (2, 5), (1, 3), (3, 1)):
    for _k in (1, 2, 3, 7):
        _tsvd(_m, _n2, _k, True)
        if _k == 2:
            _tsvd(_m, _n2, _k, False)


def _rsvd(m, n, rank, k, over, it, norm, tr, cplx):
    @case('randomized_svd[%d,%d,%s,%d,%d,%s,%s,%s,%s]' % (m, n, rank, k, over, it, norm, tr, cplx), 'C20', aspects=(),
          variants=False)
    def f(w):
        dt = C16 if cplx else F8
        if rank is None:
            M = w.array('A', (m, n), dt)
        else:
            M = npm.dot(w.array('X', (m, rank), dt), w.array('Y', (rank, n), dt))
        fn = w.fn('utils.extmath.randomized_svd')
        kw = {}
        if it != 'auto':
            kw['n_iter'] = it
        if norm != 'auto':
            kw['piter_normalizer'] = norm
        if tr != 'auto':
            kw['transpose'] = tr
        u, s, v = w.call(fn, M, k, n_oversamples=over, randstate=npm.RNG(3), **kw)
        r = min(m, n) if rank is None else rank
        exact = k + over >= r
        if not exact:
            u, s, v = npm.arr_of(u), npm.arr_of(s), npm.arr_of(v)
            w.require(s.shape[0] == k, '%s components instead of %d' % (s.shape[0], k), w.locate(fn))
            check_factors(w, fn, u, s, v, M, k, None)
            # a compression of M onto the found subspaces: u* M v* is diagonal with the returned values
            if not ((m < n) if tr == 'auto' else tr):
                w.same(npm.dot(ctrans(u), npm.dot(M, ctrans(v))), npm.diag(s), 'u* M v* is not diag(s)', w.locate(fn))
            return
        check_factors(w, fn, npm.arr_of(u), npm.arr_of(s), npm.arr_of(v), M, k, True)


for _c in (True, False):
    for _tr in ('auto', False, True):
        for _m, _n2 in ((4, 3), (3, 4), (3, 3)):
            _rsvd(_m, _n2, None, 3, 1, 0, 'auto', _tr, _c)
            _rsvd(_m, _n2, None, 2, 1, 1, 'none', _tr, _c)
        _rsvd(5, 4, 2, 2, 0, 1, 'QR', _tr, _c)
        _rsvd(4, 5, 2, 2, 0, 0, 'auto', _tr, _c)
        _rsvd(4, 5, 2, 1, 1, 1, 'QR', _tr, _c)
        _rsvd(5, 4, None, 2, 0, 1, 'QR', _tr, _c)
        _rsvd(4, 5, None, 2, 1, 0, 'QR', _tr, _c)
_rsvd(4, 3, None, 2, 10, 'auto', 'auto', 'auto', True)
_rsvd(3, 4, None, 2, 10, 3, 'LU', 'auto', True)
_rsvd(4, 3, None, 2, 2, 2, 'auto', 'auto', True)


def _range(m, n, sk, it, norm, cplx):
    @case('approx_range_finder[%d,%d,%d,%s,%s,%s]' % (m, n, sk, it, norm, cplx), 'C20', aspects=(), variants=False)
    def f(w):
        M = w.array('A', (m, n), C16 if cplx else F8)
        fn = w.fn('utils.extmath.approx_range_finder')
        q = npm.arr_of(w.call(fn, M, sk, it, norm, npm.RNG(3)))
        where = w.locate(fn)
        w.require(q.shape == (m, min(m, sk)), 'range basis of shape %s' % (q.shape,), where)
        w.same(npm.dot(ctrans(q), q), Arr(tn.eye((q.shape[1],)), real.dtype(float)), 'range basis is not orthonormal', where)
        if sk >= min(m, n):
            w.same(npm.dot(q, npm.dot(ctrans(q), M)), M, 'basis does not span the range', where)


for _it, _no in ((0, 'auto'), (1, 'none'), (1, 'QR'), (1, 'LU'), (2, 'auto')):
    for _c in (True, False):
        _range(4, 3, 2, _it, _no, _c)
        _range(4, 3, 3, _it, _no, _c)
        _range(3, 4, 2, _it, _no, _c)


# -- layout conversions ------------------------------------------------------------------------
def _layout(sites, legs, ls, rs):
    @case('layouts[%d,%d,%d,%d]' % (sites, legs, ls, rs), 'C20', aspects=('dtype',))
    def f(w):
        lo = [('l', i) for i in range(ls)]
        ro = [('r', i) for i in range(rs)]
        loc = lo + [(i, j) for i in range(sites) for j in range(legs)] + ro
        glo = lo + [(i, j) for j in range(legs) for i in range(sites)] + ro
        dims = {x: w.dim('d%s_%s' % x) for x in loc}
        g2l, l2g = w.fn('utils.array_transforms.global_to_local'), w.fn('utils.array_transforms.local_to_global')
        kw = {}
        if ls:
            kw['left_skip'] = ls
        if rs:
            kw['right_skip'] = rs
        G = w.array('A', [dims[x] for x in glo])
        Lc = w.array('B', [dims[x] for x in loc])
        w.result(w.call(g2l, G, sites, **kw), ein([glo], loc, G), what='global_to_local', f=g2l, fresh=False)
        w.result(w.call(l2g, Lc, sites, **kw), ein([loc], glo, Lc), what='local_to_global', f=l2g, fresh=False)
        w.same(w.call(l2g, w.call(g2l, G, sites, **kw), sites, **kw), G, 'round trip', w.locate(l2g))


for _s in (1, 2, 3, 4):
    for _l in (1, 2, 3):
        for _ls, _rs in ((0, 0), (1, 1), (2, 0), (0, 2), (1, 3)):
            _layout(_s, _l, _ls, _rs)


# -- arrays with named axes --------------------------------------------------------------------
@case('named_ndarray', 'C20', aspects=())
def f(w):
    N = w.fn('_named_ndarray.named_ndarray')
    d = {x: w.dim('d' + x) for x in 'abcde'}
    A, B = w.array('A', [d[x] for x in 'abc']), w.array('B', [d[x] for x in 'dcbe'])
    a, b = w.call(N, A, ['a', 'b', 'c']), w.call(N, B, ('d', 'c', 'b', 'e'))
    w.same(w.call(a.to_array, ['c', 'a', 'b']), ein([list('abc')], list('cab'), A), 'to_array', w.locate(N.to_array))
    w.same(w.call(w.call(a.conj).to_array, ['b', 'c', 'a']), ein([list('abc')], list('bca'), A.conj()), 'conj',
           w.locate(N.conj))
    r = w.call(a.rename, [('a', 'x'), ('c', 'a')])
    w.require(tuple(r.axisnames) == ('x', 'b', 'a'), 'rename: names %s' % (r.axisnames,), w.locate(N.rename))
    w.same(w.call(r.to_array, ['a', 'x', 'b']), ein([list('abc')], list('cab'), A), 'rename', w.locate(N.rename))
    t = w.call(a.tensordot, b, [('c', 'c')]) if False else w.call(a.tensordot, w.call(b.rename, [('b', 'y')]), [('c', 'c')])
    w.require(tuple(t.axisnames) == ('a', 'b', 'd', 'y', 'e'), 'tensordot: names %s' % (t.axisnames,), w.locate(N.tensordot))
    w.same(w.call(t.to_array, ['e', 'a', 'd', 'b', 'y']), ein([list('abc'), list('dcye')], list('eadby'), A, B),
           'tensordot', w.locate(N.tensordot))
    t = w.call(a.tensordot, b, [('b', 'b'), ('c', 'c')])
    w.require(tuple(t.axisnames) == ('a', 'd', 'e'), 'tensordot: names %s' % (t.axisnames,), w.locate(N.tensordot))
    w.same(w.call(t.to_array, ['d', 'e', 'a']), ein([list('abc'), list('dcbe')], list('dea'), A, B), 'tensordot',
           w.locate(N.tensordot))
    w.rejects(N, A, ['a', 'b'])
    w.rejects(N, A, ['a', 'b', 'a'])
    w.rejects(a.tensordot, b, [('c', 'c')])


# -- analytic energy formula of the documentation -----------------------------------------------------
def _e0(n):
    @case('cXY_E0[%d]' % n, 'C20', aspects=(), variants=False)
    def f(w):
        fn = w.fn('utils.physics.cXY_E0')
        for g in (0., .25, .5, 1., 1.5, -.5):
            e = w.call(fn, n, g)
            want = 0.
            for l in range(n):
                k = 2 * real.pi / n * (l - n / 2.)
                want -= .5 * real.sqrt(1 - (1 - g * g) * real.sin(k) ** 2)
            w.same(e, want, 'cXY_E0(%d, %s)' % (n, g), w.locate(fn))


for _n in (2, 6, 10, 14):
    _e0(_n)


def _power(m, n, sk, it, norm, cplx):
    @case('power_iterations[%d,%d,%d,%d,%s,%s]' % (m, n, sk, it, norm, cplx), 'C20', aspects=(), variants=False)
    def f(w):
        """n_iter power iterations: the basis spans (A A^H)^n_iter times what is spanned without iterations."""
        M = w.array('A', (m, n), C16 if cplx else F8)
        fn = w.fn('utils.extmath.approx_range_finder')
        q = w.call(fn, M, sk, it, norm, npm.RNG(3))
        q0 = w.call(fn, M, sk, 0, norm, npm.RNG(3))
        done = 0
        for seed in range(evalten.BASE_SEED, evalten.BASE_SEED + 20):
            p = evalten.Point(seed)
            if not p.consistent():
                continue
            a, x, y = (p.ten(npm.ten_of(t)) for t in (M, q, q0))
            for _ in range(it):
                y = a.dot(a.conj().T.dot(y))
                y = y / abs(y).max()
            r = y - x.dot(x.conj().T.dot(y))
            w.require(bool(abs(r).max() < 1e-7), 'approx_range_finder: %d power iteration(s) with normalizer %s do not give the '
                      'range of (A A^H)^%d A' % (it, norm, it), w.locate(fn))
            done += 1
            if done == 3:
                break
        w.require(done > 0, 'no point')


for _it, _no in ((1, 'none'), (2, 'none'), (1, 'LU'), (3, 'LU'), (1, 'QR'), (2, 'QR'), (1, 'auto'), (2, 'auto'), (3, 'auto')):
    for _c in (True, False):
        for _m, _n in ((5, 4), (4, 6)):
            _power(_m, _n, 2, _it, _no, _c)
