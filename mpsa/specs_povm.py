"""POVM probabilities (C12)."""
import numpy as real
from . import tn, npm
from .npm import Arr
from .cases import case
from .specs_core import ein, flat, nm
from .specs_more import outer, eyeA
from .world import F8, C16, Violation


def povm(w, name, outd, hd, bonds=None, dtype=None):
    return w.mpa(name, [(o, h, h) for o, h in zip(outd, hd)], bonds=bonds, cls=w.fn('povm.mppovm.MPPovm'), dtype=dtype)


def rho_of(w, S, mode):
    """Density matrix as abstract array with axes (row, column) site by site."""
    d = w.D(S)
    L = len(w.lts(S))
    if mode == 'mps':
        i, o = [('r', k) for k in range(L)], [('c', k) for k in range(L)]
        return ein([i, o], flat(zip(i, o)), d, npm.arr_of(Arr(tn.conj(d.val), d.dtype)))
    if mode == 'pmps':
        i = flat([('r', k), ('a', k)] for k in range(L))
        o = flat([('c', k), ('a', k)] for k in range(L))
        return ein([i, o], flat([('r', k), ('c', k)] for k in range(L)), d, Arr(tn.conj(d.val), d.dtype))
    return d


def probs(w, M, rho, L):
    """p[i1..iL] = tr(M_i rho): sum M[i, a, b] rho[b, a]."""
    m = flat([('i', k), ('a', k), ('b', k)] for k in range(L))
    r = flat([('b', k), ('a', k)] for k in range(L))
    return ein([m, r], [('i', k) for k in range(L)], M, rho)


def trace_out(rho, L, keep):
    lab = flat([('r', k), ('c', k) if k in keep else ('r', k)] for k in range(L))
    return ein([lab], flat([('r', k), ('c', k)] for k in keep), rho)


def state(w, name, hd, mode, anc=2, bonds=None, dtype=None):
    if mode == 'mps':
        sh = [(h,) for h in hd]
    elif mode == 'pmps':
        sh = [(h, anc + (k % 2)) for k, h in enumerate(hd)]
    else:
        sh = [(h, h) for h in hd]
    return w.mpa(name, sh, bonds=bonds, dtype=dtype)


def real_part(a):
    if a.dtype.kind != 'c':
        return a
    return a.real


def normalised(p, outd):
    """What project_pmf delivers for admissible probabilities, without singleton outcomes."""
    p = real_part(p).reshape(tuple(o for o in outd if o != 1))
    return p / p.sum()


MODES = ('mps', 'mpdo', 'pmps')


def _maps(outd, hd, pb, sb, tier):
    L = len(outd)
    lab = '%s;%s;%s;%s' % (nm(outd), nm(hd), nm(pb), nm(sb))

    for mode in MODES:
        for auto in ((False, True) if mode != 'pmps' else (False,)):
            @case('pmf[%s,%s,%s]' % (lab, mode, auto), 'C12', tier=tier, aspects=('alias', 'dtype', 'cform'))
            def f(w, mode=mode, auto=auto):
                M = povm(w, 'A', outd, hd, pb)
                S = state(w, 'B', hd, mode, bonds=sb)
                want = probs(w, w.D(M), rho_of(w, S, mode), L)
                m = type(M).pmf
                r = w.call(M.pmf, S) if auto else w.call(M.pmf, S, mode)
                w.result(r, want, what='pmf(mode=%s)' % mode, f=m, recanon=('B',))

        for impl in ('auto', 'default') + (('pmps-symm', 'pmps-ltr') if mode == 'pmps' else ()):
            @case('pmf_as_array[%s,%s,%s]' % (lab, mode, impl), 'C12', tier=tier, aspects=('alias',))
            def f(w, mode=mode, impl=impl):
                npm.EV.assume_nonneg = True
                M = povm(w, 'A', outd, hd, pb)
                S = state(w, 'B', hd, mode, bonds=sb)
                want = normalised(probs(w, w.D(M), rho_of(w, S, mode), L), outd)
                m = type(M).pmf_as_array
                r = w.call(M.pmf_as_array, S, mode, impl=impl)
                w.result(r, want, what='pmf_as_array(mode=%s, impl=%s)' % (mode, impl), f=m, recanon=('B',))

    for mode in ('mps', 'mpdo'):
        @case('pmf_as_array[%s,%s,mode=auto]' % (lab, mode), 'C12', tier=tier, aspects=())
        def f(w, mode=mode):
            npm.EV.assume_nonneg = True
            M = povm(w, 'A', outd, hd, pb)
            S = state(w, 'B', hd, mode, bonds=sb)
            want = normalised(probs(w, w.D(M), rho_of(w, S, mode), L), outd)
            w.result(w.call(M.pmf_as_array, S), want, what='pmf_as_array()', f=type(M).pmf_as_array, recanon=('B',))

    @case('probability_map[%s]' % lab, 'C12', tier=tier)
    def f(w):
        M = povm(w, 'A', outd, hd, pb)
        d = w.D(M)
        want = ein([flat([('i', k), ('a', k), ('b', k)] for k in range(L))],
                   flat([('i', k), ('b', k), ('a', k)] for k in range(L)), d).reshape(
            flat([o, h * h] for o, h in zip(outd, hd)))
        w.result(w.I.native(getattr, (M, 'probability_map')), want, what='probability_map', f=None)

    @case('elements[%s]' % lab, 'C12', tier=tier)
    def f(w):
        M = povm(w, 'A', outd, hd, pb)
        d = w.D(M)
        els = list(w.I.native(getattr, (M, 'elements')))
        n = int(real.prod(outd))
        w.require(len(els) == n, 'elements yields %d of %d POVM elements' % (len(els), n))
        for e, idx in zip(els, real.ndindex(*outd)):
            want = d[tuple(flat([i, slice(None), slice(None)] for i in idx))]
            w.result(e, want, what='POVM element %s' % (idx,), f=type(M).axis_iter, legs=[2] * L)


_maps([3], [2], [], [], 'quick')
_maps([2, 3], [3, 2], [2], [3], 'quick')
_maps([2, 1], [2, 3], [2], [2], 'quick')
_maps([1, 3], [2, 3], [1], [2], 'quick')
_maps([2, 3, 1], [2, 2, 3], [2, 3], [3, 2], 'quick')
_maps([3, 1, 2], [2, 3, 2], [1, 2], [2, 3], 'quick')
_maps([1, 2, 1], [3, 2, 2], [2, 2], [2, 2], 'quick')
_maps([2, 2, 3, 2], [2, 2, 2, 2], [2, 1, 2], [2, 3, 2], 'quick')
_maps([2, 2, 3], [2, 2, 2], [1, 1], [2, 4], 'quick')
_maps([3, 2, 2], [2, 2, 2], [2, 1], [4, 2], 'quick')
_maps([7, 2, 3], [2, 2, 2], [1, 1], [2, 2], 'quick')
_maps([2, 3, 2, 4], [2, 2, 2, 2], [1, 1, 1], [2, 3, 2], 'quick')
_maps([2, 1, 1, 3], [2, 2, 2, 2], [2, 2, 2], [2, 2, 2], 'thorough')
_maps([4, 2, 2], [2, 3, 2], [2, 2], [2, 2], 'thorough')
_maps([2, 2, 4], [2, 3, 2], [3, 2], [2, 4], 'thorough')


def _expect(n, N, tier):
    outd, hd = [2, 3, 2][:n], [2] * n
    for mode in MODES:
        @case('expectations[%d,%d,%s]' % (n, N, mode), 'C12', tier=tier, aspects=('alias', 'dtype'))
        def f(w, mode=mode):
            M = povm(w, 'A', outd, hd, [2] * (n - 1))
            S = state(w, 'B', [2] * N, mode, bonds=([2, 3, 2, 2] * 3)[:N - 1])
            rho = rho_of(w, S, mode)
            m = type(M).expectations
            rs = w.call(M.expectations, S, mode)
            w.require(len(rs) == N - n + 1, 'expectations yields %d values instead of %d' % (len(rs), N - n + 1),
                      w.locate(m))
            for s, r in enumerate(rs):
                want = probs(w, w.D(M), trace_out(rho, N, range(s, s + n)), n)
                w.result(r, want, what='expectations on sites %d..%d' % (s, s + n - 1), f=m, recanon=('B',))

        @case('block_pmfs_as_array[%d,%d,%s]' % (n, N, mode), 'C12', tier=tier, aspects=())
        def f(w, mode=mode):
            npm.EV.assume_nonneg = True
            M = povm(w, 'A', outd, hd, [2] * (n - 1))
            S = state(w, 'B', [2] * N, mode, bonds=([2, 3, 2, 2] * 3)[:N - 1])
            rho = rho_of(w, S, mode)
            m = type(M).block_pmfs_as_array
            rs = w.call(M.block_pmfs_as_array, S, mode)
            w.require(len(rs) == N - n + 1, 'block_pmfs_as_array yields %d values' % len(rs), w.locate(m))
            for s, r in enumerate(rs):
                want = normalised(probs(w, w.D(M), trace_out(rho, N, range(s, s + n)), n), outd)
                w.same(r, want, 'block_pmfs_as_array on sites %d..' % s, w.locate(m))

        @case('block_pmfs_as_array_startsites[%d,%d,%s]' % (n, N, mode), 'C12', tier=tier, aspects=())
        def f(w, mode=mode):
            npm.EV.assume_nonneg = True
            M = povm(w, 'A', outd, hd, [2] * (n - 1))
            S = state(w, 'B', [2] * N, mode, bonds=([2, 3, 2, 2] * 3)[:N - 1])
            rho = rho_of(w, S, mode)
            m = type(M).block_pmfs_as_array
            starts = list(range(N - n, -1, -2))
            rs = w.call(M.block_pmfs_as_array, S, mode, asarray=True, width=n, startsites=starts)
            w.require(hasattr(rs, 'shape'), 'block_pmfs_as_array(asarray=True) yields no array', w.locate(m))
            w.require(rs.shape[0] == len(starts), 'block_pmfs_as_array yields %s values' % (rs.shape,), w.locate(m))
            for k, s in enumerate(starts):
                want = normalised(probs(w, w.D(M), trace_out(rho, N, range(s, s + n)), n), outd)
                w.same(rs[k], want, 'block_pmfs_as_array on sites %d..' % s, w.locate(m))


for _n, _N in ((1, 1), (1, 3), (2, 3), (3, 3)):
    _expect(_n, _N, 'quick')
_expect(2, 4, 'thorough')
_expect(1, 4, 'thorough')
_expect(3, 4, 'thorough')


# -- construction ------------------------------------------------------------------------------
@case('from_local_povm', 'C12', aspects=('alias', 'cform'))
def f(w):
    C = w.fn('povm.mppovm.MPPovm')
    E = w.array('A', (3, 2, 2))
    for n in (1, 2, 3):
        r = w.call(C.from_local_povm, E, n)
        w.require(isinstance(r, C), 'from_local_povm returns no MPPovm')
        w.result(r, outer(*[E] * n), what='from_local_povm(width=%d)' % n, f=C.from_local_povm)


@case('mppovm_eye', 'C12', aspects=('cform',))
def f(w):
    C = w.fn('povm.mppovm.MPPovm')
    for dims in ([2], [2, 3], [3, 2, 2]):
        r = w.call(C.eye, iter(dims))
        w.require(isinstance(r, C), 'eye returns no MPPovm')
        want = outer(*[eyeA(d).reshape((1, d, d)) for d in dims])
        w.result(r, want, what='MPPovm.eye(%s)' % dims, f=C.eye)


def _embed(N, start, n, tier):
    outd, hd = [2, 1, 3][:n], [2, 3, 2][:n]

    @case('mppovm_embed[%d,%d,%d]' % (N, start, n), 'C12', tier=tier)
    def f(w):
        M = povm(w, 'A', outd, hd)
        ld = [4, 3, 5, 2, 3]
        ld = ld[:start] + hd + ld[start:N - n]
        r = w.call(M.embed, N, start, ld)
        want = outer(*[eyeA(d).reshape((1, d, d)) for d in ld[:start]] + [w.D(M)] +
                     [eyeA(d).reshape((1, d, d)) for d in ld[start + n:]])
        w.require(isinstance(r, type(M)), 'embed returns no MPPovm')
        w.result(r, want, what='embed(%d, %d)' % (N, start), f=type(M).embed)

    @case('mppovm_embed_uniform[%d,%d,%d]' % (N, start, n), 'C12', tier=tier)
    def f(w):
        M = povm(w, 'A', outd, [2] * n)
        r = w.call(M.embed, N, start, 2)
        e = eyeA(2).reshape((1, 2, 2))
        want = outer(*[e] * start + [w.D(M)] + [e] * (N - start - n))
        w.result(r, want, what='embed(%d, %d)' % (N, start), f=type(M).embed)


for _a in ((1, 0, 1), (2, 0, 1), (2, 1, 1), (3, 1, 1), (3, 1, 2), (3, 0, 2), (3, 0, 3), (4, 1, 2), (4, 2, 2), (4, 1, 1)):
    _embed(*_a, 'quick')


def _block(N, n, tier):
    outd = [2, 1, 3][:n]

    @case('mppovm_block[%d,%d]' % (N, n), 'C12', tier=tier)
    def f(w):
        h = w.dim('h')
        M = povm(w, 'A', outd, [h] * n)
        r = w.call(M.block, N)
        ms = list(r.mpps)
        w.require(len(ms) == N - n + 1, 'block(%d) has %d members' % (N, len(ms)), w.locate(type(M).block))
        e = Arr(tn.eye((h,)), real.dtype(float)).reshape((1, h, h))
        for s, m in enumerate(ms):
            w.result(m, outer(*[e] * s + [w.D(M)] + [e] * (N - n - s)), what='block(%d)[%d]' % (N, s), f=type(M).block)

    @case('mppovmlist_block[%d,%d]' % (N, n), 'C12', tier=tier)
    def f(w):
        h = w.dim('h')
        M1, M2 = povm(w, 'A', outd, [h] * n), povm(w, 'B', [3] * n, [h] * n)
        LC = w.fn('povm.mppovm.MPPovmList')
        lst = w.call(LC, [M1, M2])
        r = w.call(lst.block, N)
        ms = list(r.mpps)
        w.require(len(ms) == 2 * (N - n + 1), 'block(%d) has %d members' % (N, len(ms)), w.locate(LC.block))
        e = Arr(tn.eye((h,)), real.dtype(float)).reshape((1, h, h))
        for k, m in enumerate(ms):
            s = k // 2
            w.result(m, outer(*[e] * s + [w.D((M1, M2)[k % 2])] + [e] * (N - n - s)),
                     what='MPPovmList.block(%d)[%d]' % (N, k), f=LC.block)


for _a in ((1, 1), (2, 1), (3, 1), (3, 2), (3, 3), (4, 2)):
    _block(*_a, 'quick')


def _repeat(n, N, tier):
    @case('mppovm_repeat[%d,%d]' % (n, N), 'C12', tier=tier, aspects=('alias', 'cform', 'rank', 'dtype'))
    def f(w):
        outd, hd = [2, 3, 1][:n], [2, 3, 2][:n]
        bonds = None
        if N % n and w.bondmode is None:
            bonds = [w.dim('Ab%d' % (i + 1)) for i in range(n - 1)]
            bonds[N % n - 1] = 1
        M = povm(w, 'A', outd, hd, bonds)
        if N % n and list(M.ranks)[N % n - 1] != 1:
            w.rejects(M.repeat, N)
            return
        lts = w.lts(M)
        part = [Arr(w.dense(M, lts[:N % n]), npm.promote(*[l.dtype for l in lts[:N % n]]))] if N % n else []
        want = outer(*[w.D(M)] * (N // n) + part)
        r = w.call(M.repeat, N)
        w.require(isinstance(r, type(M)), 'repeat returns no MPPovm')
        w.result(r, want, what='repeat(%d) of %d sites' % (N, n), f=type(M).repeat)


for _a in ((1, 1), (1, 3), (2, 2), (2, 4), (2, 3), (3, 4), (3, 5), (2, 1), (3, 2), (3, 3)):
    _repeat(*_a, 'quick')


@case('mppovmlist_repeat', 'C12')
def f(w):
    M1, M2 = povm(w, 'A', [2, 3], [2, 2]), povm(w, 'B', [3, 1], [2, 2])
    LC = w.fn('povm.mppovm.MPPovmList')
    r = w.call(w.call(LC, [M1, M2]).repeat, 4)
    ms = list(r.mpps)
    w.require(len(ms) == 2, 'repeat has %d members' % len(ms))
    for m, o in zip(ms, (M1, M2)):
        w.result(m, outer(w.D(o), w.D(o)), what='MPPovmList.repeat(4)', f=LC.repeat)


def _lists(mode, tier):
    def setup(w):
        npm.EV.assume_nonneg = True
        M1, M2 = povm(w, 'A', [2, 3], [2, 3], [2]), povm(w, 'C', [3, 1], [2, 3], [2])
        LC = w.fn('povm.mppovm.MPPovmList')
        return [M1, M2], w.call(LC, iter([M1, M2])), LC

    @case('mppovmlist_pmf[%s]' % mode, 'C12', tier=tier, aspects=('alias',))
    def f(w):
        ms, lst, LC = setup(w)
        S = state(w, 'B', [2, 3], mode, bonds=[2])
        rho = rho_of(w, S, mode)
        rs = w.call(lst.pmf, S, mode)
        w.require(len(rs) == 2, 'MPPovmList.pmf yields %d results' % len(rs))
        for r, m in zip(rs, ms):
            w.result(r, probs(w, w.D(m), rho, 2), what='MPPovmList.pmf', f=LC.pmf, recanon=('B',))

    @case('mppovmlist_pmf_as_array[%s]' % mode, 'C12', tier=tier, aspects=('alias',))
    def f(w):
        ms, lst, LC = setup(w)
        S = state(w, 'B', [2, 3], mode, bonds=[2])
        rho = rho_of(w, S, mode)
        rs = w.call(lst.pmf_as_array, S, mode)
        w.require(len(rs) == 2, 'MPPovmList.pmf_as_array yields %d results' % len(rs))
        for r, m, o in zip(rs, ms, ([2, 3], [3, 1])):
            w.result(r, normalised(probs(w, w.D(m), rho, 2), o), what='MPPovmList.pmf_as_array', f=LC.pmf_as_array,
                     recanon=('B',))

    @case('mppovmlist_pmfs_as_array[%s]' % mode, 'C12', tier=tier, aspects=())
    def f(w):
        ms, lst, LC = setup(w)
        S = [state(w, n, [2, 3], mode, bonds=[2]) for n in 'BD']
        rs = w.call(lst.pmfs_as_array, iter(S), mode)
        w.require(len(rs) == 2, 'MPPovmList.pmfs_as_array yields %d results' % len(rs))
        for r, m, o, s in zip(rs, ms, ([2, 3], [3, 1]), S):
            w.same(r, normalised(probs(w, w.D(m), rho_of(w, s, mode), 2), o), 'MPPovmList.pmfs_as_array',
                   w.locate(LC.pmfs_as_array))

    @case('mppovmlist_block_pmfs[%s]' % mode, 'C12', tier=tier, aspects=())
    def f(w):
        npm.EV.assume_nonneg = True
        ms = [povm(w, 'A', [2, 3], [2, 2], [2]), povm(w, 'C', [3, 2], [2, 2], [2])]
        LC = w.fn('povm.mppovm.MPPovmList')
        lst = w.call(LC, ms)
        S = state(w, 'B', [2, 2, 2], mode, bonds=[2, 3])
        rho = rho_of(w, S, mode)
        rs = w.call(lst.block_pmfs_as_array, S, mode)
        w.require(len(rs) == 2, 'MPPovmList.block_pmfs_as_array yields %d results' % len(rs))
        for k, (r, m) in enumerate(zip(rs, ms)):
            want = normalised(probs(w, w.D(m), trace_out(rho, 3, (k, k + 1)), 2), ([2, 3], [3, 2])[k])
            w.same(r, want, 'MPPovmList.block_pmfs_as_array', w.locate(LC.block_pmfs_as_array))
        rs = w.call(lst.block_pmfs_as_array, S, mode, width=2, startsites=[1, 1])
        for k, (r, m) in enumerate(zip(rs, ms)):
            want = normalised(probs(w, w.D(m), trace_out(rho, 3, (1, 2)), 2), ([2, 3], [3, 2])[k])
            w.same(r, want, 'MPPovmList.block_pmfs_as_array(startsites)', w.locate(LC.block_pmfs_as_array))
        # a longer chain than the one the list covers by default
        T = state(w, 'T', [2] * 4, mode, bonds=[2, 2, 2])
        rho = rho_of(w, T, mode)
        rs = w.call(lst.block_pmfs_as_array, T, mode, asarray=False, width=2, startsites=[0, 2])
        w.require(len(rs) == 2, 'MPPovmList.block_pmfs_as_array yields %d results' % len(rs))
        for k, (r, m) in enumerate(zip(rs, ms)):
            want = normalised(probs(w, w.D(m), trace_out(rho, 4, (2 * k, 2 * k + 1)), 2), ([2, 3], [3, 2])[k])
            w.same(r, want, 'MPPovmList.block_pmfs_as_array(startsites)', w.locate(LC.block_pmfs_as_array))


for _m in MODES:
    _lists(_m, 'quick')


@case('localpovm_probability_map', 'C12', aspects=('alias',))
def f(w):
    C = w.fn('povm.localpovm.POVM')
    d = w.dim('h')
    E = w.array('A', (3, d, d))
    P = w.call(C, E)
    rho = w.array('R', (d, d))
    want = ein([['i', 'a', 'b'], ['b', 'a']], ['i'], E, rho)
    m = w.I.native(getattr, (P, 'probability_map'))
    w.same(npm.dot(m, rho.ravel()) if hasattr(npm, 'dot') else w.call(w.fn('povm.localpovm.np').dot, m, rho.ravel()),
           want, 'POVM.probability_map', '')
    w.require(w.call(len, P) == 3, 'number of elements')


@case('localpovm_from_vectors', 'C12', aspects=())
def f(w):
    C = w.fn('povm.localpovm.POVM')
    vs = [w.array('v%d' % i, (3,)) for i in range(2)]
    P = w.call(C.from_vectors, vs)
    for i, v in enumerate(vs):
        w.same(w.call(lambda: P[i]), outer(v, Arr(tn.conj(v.val), v.dtype)), 'from_vectors element %d' % i,
               w.locate(C.from_vectors))


@case('localpovm_concat', 'C12', aspects=())
def f(w):
    C = w.fn('povm.localpovm.POVM')
    E, G = w.array('A', (2, 3, 3)), w.array('B', (3, 3, 3))
    P = w.call(w.fn('povm.localpovm.concat'), [w.call(C, E), w.call(C, G)], (.25, .75))
    want = [E[0] * .25, E[1] * .25] + [G[i] * .75 for i in range(3)]
    w.require(w.call(len, P) == 5, 'concat: %s elements' % w.call(len, P))
    for i, x in enumerate(want):
        w.same(w.call(lambda: P[i]), x, 'concat element %d' % i, w.locate(w.fn('povm.localpovm.concat')))


# -- what a POVM says about itself -------------------------------------------------------------------
def _dims(outd, hd):
    @case('povm_dims[%s]' % ''.join(map(str, outd)), 'C12', aspects=(), variants=False)
    def f(w):
        M = povm(w, 'A', outd, hd, None)
        get = lambda a: tuple(w.call(lambda: w.I.native(getattr, (M, a))))
        for a, want in (('outdims', tuple(outd)), ('hdims', tuple(hd)), ('nsoutdims', tuple(d for d in outd if d > 1)),
                        ('nsoutpos', tuple(k for k, d in enumerate(outd) if d > 1))):
            w.require(get(a) == want, 'MPPovm.%s is %s instead of %s' % (a, get(a), want))


for _o, _h in (([2], [3]), ([1], [2]), ([3, 2], [2, 3]), ([1, 2], [2, 2]), ([2, 1, 4], [2, 3, 2]), ([1, 1, 3], [4, 2, 3])):
    _dims(_o, _h)
