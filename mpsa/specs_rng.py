"""Random sources (C14): every draw of a randomised function comes from the caller's random state."""
import numpy as real
from . import tn, npm
from .npm import Arr, EV
from .cases import case
from .specs_core import phys
from .specs_povm import povm, state
from .world import F8, C16, Violation


def caller():
    return npm.RNG(7, name='caller')


def only_caller(w, fn, n=None):
    """All recorded draws come from the state the caller supplied."""
    bad = [d for d in EV.draws if d[0] != 'caller']
    w.require(not bad, 'draws from the %s random source (%s) although the caller supplied a random state' % (
        bad[0][0] if bad else '', bad[0][1] if bad else ''), w.locate(fn))
    if n is not None:
        got = sum(_count(d) for d in EV.draws)
        w.require(got == n, 'draws %s random numbers instead of %s' % (got, n), w.locate(fn))
    else:
        w.require(len(EV.draws) > 0, 'no random numbers are drawn from the random state', w.locate(fn))


def _count(d):
    if d[1] in ('randn', 'rand'):
        n = 1
        for s in (d[2] if isinstance(d[2], (tuple, list)) else (d[2],)) if d[2] is not None else ():
            n = n * s
        return n
    return 1


def twice(w, fn, run, dense=None, n=None):
    """Two calls with equal seeds: same draws, same result."""
    dense = dense or (lambda r: [npm.ten_of(l) for l in w.lts(r)])
    EV.draws[:] = []

    def guard(rec):
        if rec[0] != 'caller' and 'value' in w.aspects:
            raise Violation('draws from the %s random source (%s) although the caller supplied a random state' % rec[:2],
                            w.locate(fn))
    EV.guard = guard
    a = run(caller())
    only_caller(w, fn, n)
    da = list(EV.draws)
    EV.draws[:] = []
    b = run(caller())
    only_caller(w, fn, n)
    w.require(len(da) == len(EV.draws), 'two calls with equal seeds draw differently', w.locate(fn))
    for x, y in zip(dense(a) if isinstance(dense(a), list) else [dense(a)],
                    dense(b) if isinstance(dense(b), list) else [dense(b)]):
        w.same(x, y, 'two calls with equal seeds give different results', w.locate(fn))
    return a


LDIMS = {'2': lambda L: (2, [(2,)] * L), '(2,3)': lambda L: ((2, 3), [(2, 3)] * L),
         'mixed': lambda L: ([(2,), (3, 2), ()][:L], [(2,), (3, 2), ()][:L])}


def expected(w, shapes, ranks, cplx, rs):
    """Local tensors as documented: site by site, real part first."""
    full = [1] + list(ranks) + [1]
    out = []
    for i, s in enumerate(shapes):
        sh = (full[i],) + tuple(s) + (full[i + 1],)
        a = rs.randn(*sh)
        if cplx:
            a = a + 1.j * rs.randn(*sh)
        out.append(a)
    return out


def chain(lts):
    t = npm.ten_of(lts[0])
    for l in lts[1:]:
        u = npm.ten_of(l)
        t = tn.tensordot(t, u, [t.ndim - 1], [0])
    return tn.drop_axis(tn.drop_axis(t, t.ndim - 1), 0)


def _mpa(L, kind, cplx, norm, force, rank):
    @case('random_mpa[%d,%s,%s,%s,%s,%s]' % (L, kind, cplx, norm, force, rank), 'C14', aspects=(), variants=False)
    def f(w):
        fn = w.fn('factory.random_mpa')
        ld, shapes = LDIMS[kind](L)
        dt = real.complex128 if cplx else real.float64
        full = [int(min(real.prod([real.prod(s, dtype=int) for s in shapes[:i]], dtype=int),
                        real.prod([real.prod(s, dtype=int) for s in shapes[i:]], dtype=int))) for i in range(1, L)]
        rk = list(rank) if isinstance(rank, tuple) else [rank] * (L - 1)
        rk = rk[:L - 1]
        ranks = rk if force else [min(a, b) for a, b in zip(rk, full)]
        n = sum(int(real.prod((([1] + ranks + [1])[i],) + tuple(shapes[i]) + (([1] + ranks + [1])[i + 1],), dtype=int))
                for i in range(L)) * (2 if cplx else 1)
        arg = rank if not isinstance(rank, tuple) else iter(rk)
        def run(rs):
            return w.call(fn, L, ld, rank if not isinstance(rank, tuple) else iter(rk), rs, normalized=norm,
                          force_rank=force, dtype=dt)
        r = twice(w, fn, run, n=n)
        w.require(list(r.ranks) == ranks, 'random_mpa: ranks %s instead of %s' % (list(r.ranks), ranks), w.locate(fn))
        want = Arr(chain(expected(w, shapes, ranks, cplx, caller())), real.dtype(dt))
        if norm:
            want = want / npm.sqrt((abs(want) ** 2).sum())
        w.same(w.dense(r), want, 'random_mpa: entries are not the documented draws', w.locate(fn))


for _L in (1, 2, 3):
    for _k in LDIMS:
        for _c in (False, True):
            _mpa(_L, _k, _c, False, False, 3)
            _mpa(_L, _k, _c, False, True, 3)
            _mpa(_L, _k, _c, True, False, 2)
_mpa(3, '2', False, False, False, (1, 5))
_mpa(3, '(2,3)', True, False, False, (3, 2))


def _simple(cid, path, args, kw=None, n=None, dense=None):
    @case(cid, 'C14', aspects=(), variants=False)
    def f(w):
        fn = w.fn(path)
        # by keyword and, where the signature allows, by position
        twice(w, fn, lambda rs: w.call(fn, *args, randstate=rs, **(kw or {})), n=n, dense=dense and dense(w))


def arr_dense(w):
    return lambda r: npm.ten_of(r)


for _L in (1, 2, 3):
    for _f in (False, True):
        _simple('random_mps[%d,%s]' % (_L, _f), 'factory.random_mps', (_L, 2, 2), dict(force_rank=_f))
        for _h in (False, True):
            for _n in (False, True):
                _simple('random_mpo[%d,%s,%s,%s]' % (_L, _f, _h, _n), 'factory.random_mpo', (_L, 2, 3),
                        dict(force_rank=_f, hermitian=_h, normalized=_n))
    _simple('random_mpdo[%d]' % _L, 'factory.random_mpdo', (_L, 2, 2))
    for _il in (1, 2):
        if _il <= _L:
            _simple('random_local_ham[%d,%d]' % (_L, _il), 'factory.random_local_ham', (_L, 2, _il))
    _simple('random_vec[%d]' % _L, 'factory._random_vec', (_L, 2), dense=arr_dense)
    _simple('random_op[%d]' % _L, 'factory._random_op', (_L, 2), dict(hermitian=True, normalized=True), dense=arr_dense)
    _simple('random_state[%d]' % _L, 'factory._random_state', (_L, 2), dense=arr_dense)


def _svd(shape, cplx, k, over, it, norm, tr):
    @case('randomized_svd_rng[%s,%s,%d,%d,%s,%s,%s]' % (shape, cplx, k, over, it, norm, tr), 'C14', aspects=(), variants=False)
    def f(w):
        fn = w.fn('utils.extmath.randomized_svd')
        A = w.array('A', shape, C16 if cplx else F8)
        t = (shape[0] < shape[1]) if tr == 'auto' else tr
        n = (shape[0] if t else shape[1]) * (k + over) * (2 if cplx else 1)
        twice(w, fn, lambda rs: w.call(fn, A, k, n_oversamples=over, n_iter=it, piter_normalizer=norm, transpose=tr,
                                       randstate=rs),
              dense=lambda r: [npm.ten_of(x) for x in r], n=n)


for _sh in ((5, 4), (3, 6)):
    for _c in (False, True):
        for _it, _no in ((0, 'auto'), (1, 'none'), (1, 'QR'), (2, 'auto')):
            for _tr in ('auto', False, True):
                _svd(_sh, _c, 2, 1, _it, _no, _tr)


@case('range_finder_rng', 'C14', aspects=(), variants=False)
def f(w):
    fn = w.fn('utils.extmath.approx_range_finder')
    A = w.array('A', (5, 4))
    twice(w, fn, lambda rs: w.call(fn, A, 3, 1, randstate=rs), dense=lambda r: npm.ten_of(r), n=24)


def _compr(L, vs, cplx, how):
    @case('compression_var_rng[%d,%d,%s,%s]' % (L, vs, cplx, how), 'C14', aspects=(), variants=False)
    def f(w):
        A = w.mpa('A', [(2,)] * L, bonds=[3] * (L - 1), dtype=C16 if cplx else F8)
        m = getattr(type(A), how)

        def run(rs):
            B = w.call(A.copy)
            r = w.call(getattr(B, how), 'var', num_sweeps=1, rank=2, randstate=rs, var_sites=vs)
            return B if how == 'compress' else r[0]
        twice(w, m, run)
        with_start = w.mpa('S', [(2,)] * L, bonds=[2] * (L - 1))
        EV.draws[:] = []
        w.call(A.compression, 'var', num_sweeps=1, startmpa=with_start, randstate=caller(), var_sites=vs)
        w.require(not [d for d in EV.draws if d[0] != 'caller'], 'draws from a global random source', w.locate(m))


for _L in (2, 3):
    for _vs in (1, 2):
        for _how in ('compress', 'compression'):
            _compr(_L, _vs, True, _how)
            _compr(_L, _vs, False, _how)


def _eigr(which, L, vs):
    @case('%s_rng[%d,%d]' % (which, L, vs), 'C14', aspects=(), variants=False)
    def f(w):
        fn = w.fn('linalg.' + which)
        H = w.mpa('A', [(2, 2)] * L, bonds=[2] * (L - 1))

        def run(rs):
            seen = []

            def eigs(op, v0=None, **kw):
                seen.append(npm.arr_of(v0))
                return w.opaque('val%d' % len(seen), (1,), F8), w.opaque('vec%d' % len(seen), npm.arr_of(v0).shape + (1,))
            w.call(fn, H if which == 'eig' else [H], 1, var_sites=vs, startvec_rank=2, randstate=rs, eigs=eigs)
            return seen[0]
        v = twice(w, fn, run, dense=lambda r: npm.ten_of(r))


for _w in ('eig', 'eig_sum'):
    for _vs in (1, 2):
        _eigr(_w, 3, _vs)


# -- sampling ----------------------------------------------------------------------------------
def _sample(method, mode, group, n, outd, lst=False):
    @case('sample_rng[%s,%s,%d,%d,%s,%s]' % (method, mode, group, n, outd, lst), 'C14', aspects=(), variants=False)
    def f(w):
        EV.assume_nonneg = True
        L = len(outd)
        M = povm(w, 'A', outd, [2] * L, [2] * (L - 1))
        S = state(w, 'B', [2] * L, mode, bonds=[2] * (L - 1))
        obj = w.call(w.fn('povm.mppovm.MPPovmList'), [M, M]) if lst else M
        m = type(obj).sample

        def run(rs):
            def choice(a, size, replace, p):
                n = int(a) if not hasattr(a, '__len__') else len(a)
                if size is None:
                    return (len(EV.draws) * 2 + 1) % n
                return real.array([(3 * i + 1) % n for i in range(int(size))])
            rs.choice_hook = choice
            r = w.call(obj.sample, rs, S, n, method, group, mode)
            return r
        twice(w, m, run, dense=lambda r: [npm.ten_of(x) for x in (r if lst else [r])])


for _mode in ('mps', 'mpdo', 'pmps'):
    _sample('direct', _mode, 1, 3, (2, 3))
    _sample('cond', _mode, 1, 2, (2, 3))
    _sample('cond', _mode, 2, 2, (2, 1, 3))
_sample('direct', 'mpdo', 1, 2, (2, 2), True)
_sample('cond', 'mpdo', 1, 2, (2, 2), True)
