"""Embedding, local sums, physical models (C08); state conversions and reductions (C09)."""
import itertools
import operator
import numpy as real
from . import tn, npm
from .npm import Arr
from .cases import case, ALL
from .specs_core import phys, ein, labels, flat, nm
from .world import Violation, F8, C16


def eyeA(d):
    return Arr(tn.eye((d,)) if not isinstance(d, int) else tn.eye((d,)), real.dtype(float))


def outer(*arrs):
    arrs = [npm.arr_of(a) for a in arrs]
    t = arrs[0].val
    for a in arrs[1:]:
        t = tn.outer(t, a.val)
    return Arr(t, npm.promote(*[a.dtype for a in arrs]))


# =============================================================================================
# C08
# =============================================================================================
def _embed(length, start, width, legs, own, tier):
    @case('embed_slice[%d,%d,%d,%d,%s]' % (length, start, width, legs, own), 'C08', tier=tier)
    def f(w):
        if own:
            A = w.mpa('A', phys(w, [legs] * width))
            E = w.array('B', [w.dim('e%d' % i) for i in range(2)])
        else:
            d = [w.dim('d%d' % i) for i in range(width)]
            A = w.mpa('A', [(x, x) for x in d])
            E = eyeA(d[0])
        fn = w.fn('mparray.embed_slice')
        want = outer(*([E] * start + [w.D(A)] + [E] * (length - start - width)))
        sl = slice(start, start + width) if start + width < length else slice(start, None)
        r = w.call(fn, length, sl, A, E) if own else w.call(fn, length, sl, A)
        w.result(r, want, what='embed_slice', f=fn,
                 ranks=[1] * start + list(A.ranks) + [1] * (length - start - width))


for _args in ((1, 0, 1), (2, 0, 1), (2, 1, 1), (2, 0, 2), (3, 1, 1), (3, 0, 2), (3, 1, 2), (3, 0, 3), (4, 1, 2),
              (4, 2, 2)):
    for _own in (False, True):
        _embed(*_args, 2, _own, 'quick')
_embed(3, 1, 1, 1, True, 'quick')
_embed(3, 0, 2, 3, True, 'quick')
_embed(5, 2, 2, 2, False, 'thorough')


def sum_terms(w, terms, starts, length, E):
    """Explicit sum of embedded terms (abstract dense arrays)."""
    tot = None
    for t, (s, width) in zip(terms, starts):
        x = outer(*([E] * s + [t] + [E] * (length - s - width)))
        tot = x if tot is None else tot + x
    return tot


def _lsum(n, width, own, tier):
    """n terms of the same width starting on sites 0..n-1."""
    length = n + width - 1
    names = 'ABCDFGHIJKLMN'

    def setup(w):
        d = w.dim('d')
        if own:
            e = w.dim('e')
            sh = [(d, e)] * width
            E = w.array('E', (d, e))
        else:
            sh = [(d, d)] * width
            E = eyeA(d)
        ms = [w.mpa(names[i], sh) for i in range(n)]
        want = sum_terms(w, [w.D(m) for m in ms], [(i, width) for i in range(n)], length, E)
        return ms, E if own else None, want

    @case('local_sum[%d,%d,%s]' % (n, width, own), 'C08', tier=tier)
    def f(w):
        ms, E, want = setup(w)
        fn = w.fn('mparray.local_sum')
        w.result(w.call(fn, iter(ms), E), want, what='local_sum', f=fn)

    @case('local_sum_slices[%d,%d,%s]' % (n, width, own), 'C08', tier=tier)
    def f(w):
        ms, E, want = setup(w)
        fn = w.fn('mparray.local_sum')
        sl = [slice(i, i + width) for i in range(n)]
        w.result(w.call(fn, ms, embed_tensor=E, length=length, slices=iter(sl)), want, what='local_sum', f=fn)

    @case('local_sum_rank[%d,%d,%s]' % (n, width, own), 'C19', tier=tier, aspects=())
    def f(w):
        d = w.dim('d')
        D = w.dim('D')
        ms = [w.mpa(names[i], [(d, d)] * width, bonds=[D] * (width - 1)) for i in range(n)]
        fn = w.fn('mparray.local_sum')
        r = w.call(fn, ms)
        from .dims import known_le
        bound = width * D + 1 if width > 1 else 2
        for x in r.ranks:
            w.require(known_le(x, bound) is not False,
                      'local_sum of %d width-%d terms of rank %s has rank %s' % (n, width, D, x), w.locate(fn))
        w.require(len(r.ranks) == n + width - 2, 'local_sum: wrong number of sites', w.locate(fn))


for _n in (1, 2, 3, 4):
    for _wd in (1, 2, 3):
        for _own in (False, True):
            _lsum(_n, _wd, _own, 'quick' if _n + _wd < 6 else 'thorough')
_lsum(5, 1, False, 'quick')
_lsum(5, 2, False, 'thorough')


def _lsum_gen(length, spec, tier):
    """Terms on arbitrary slices."""
    @case('local_sum_general[%d,%s]' % (length, ';'.join('%d:%d' % s for s in spec)), 'C08', tier=tier)
    def f(w):
        d = w.dim('d')
        ms = [w.mpa('ABCDFGHIJKLMN'[i], [(d, d)] * (b - a)) for i, (a, b) in enumerate(spec)]
        fn = w.fn('mparray.local_sum')
        want = sum_terms(w, [w.D(m) for m in ms], [(a, b - a) for a, b in spec], length, eyeA(d))
        r = w.call(fn, ms, length=length, slices=[slice(a, b) for a, b in spec])
        w.result(r, want, what='local_sum', f=fn)


for _len, _sp in ((3, [(0, 1), (2, 3)]), (3, [(0, 2), (0, 2)]), (3, [(1, 2)]), (3, [(1, 3), (0, 2)]), (4, [(0, 2), (2, 4)]),
                  (4, [(0, 1), (1, 3), (2, 4)]), (2, [(0, 1), (0, 1)]), (1, [(0, 1), (0, 1)]), (3, [(0, 1), (1, 2)]),
                  (4, [(0, 2), (1, 3)]), (3, [(0, 3), (0, 2)]), (4, [(0, 2), (1, 3), (2, 4), (2, 4)]),
                  (3, [(0, 1), (1, 2), (2, 3), (1, 2)]), (4, [(1, 3), (2, 4)])):
    _lsum_gen(_len, _sp, 'quick')


@case('regular_slices', 'C08', aspects=(), variants=False)
def f(w):
    fn = w.fn('mparray.regular_slices')
    for length in range(1, 9):
        for width in range(1, length + 1):
            for offset in range(1, 5):
                if (length - width) % offset:
                    continue
                got = [(s.start, s.stop, s.step) for s in w.call(fn, length, width, offset)]
                want = [(offset * i, offset * i + width, None) for i in range((length - width) // offset + 1)]
                w.require([g[:2] for g in got] == [x[:2] for x in want] and all(g[2] in (None, 1) for g in got),
                          'regular_slices(%d, %d, %d) yields %s' % (length, width, offset, got), w.locate(fn))


def _inject(L, pos, num, ten, tier):
    """ten: None (identity), 'one' (single tensor, num copies), 'seq' (list of tensors)."""
    positions = pos if isinstance(pos, tuple) else (pos,)
    nums = num if isinstance(num, tuple) else (num,) * len(positions)
    tens = ten if isinstance(ten, tuple) else (ten,) * len(positions)

    @case('inject[%d,%s,%s,%s]' % (L, pos, num, ten), 'C08', tier=tier)
    def f(w):
        if all(t is None for t in tens):
            d = [w.dim('d%d' % i) for i in range(L)]
            A = w.mpa('A', [(x, x) for x in d])
        else:
            A = w.mpa('A', phys(w, [2] * L))
        la = labels([2] * L, 'a')
        ins, arrs, inj_args, n_args = [], [], [], []
        blocks = {}
        for k, (p, n, t) in enumerate(zip(positions, nums, tens)):
            if t is None:
                lt = [eyeA(A.shape[p if p < L else p - 1][0])] * n
                inj_args.append(None)
                n_args.append(n)
            elif t == 'one':
                x = w.array('B%d' % k, (w.dim('x%d' % k), w.dim('y%d' % k)))
                lt = [x] * n
                inj_args.append(x)
                n_args.append(n)
            else:
                lt = [w.array('B%d_%d' % (k, j), (w.dim('x%d_%d' % (k, j)),) * (1 + j % 2)) for j in range(n)]
                inj_args.append(lt)
                n_args.append(None)
            blocks[p] = lt
        out = []
        for i in range(L + 1):
            for j, x in enumerate(blocks.get(i, ())):
                lab = [('b', i, j, q) for q in range(x.ndim)]
                ins.append(lab)
                arrs.append(x)
                out += lab
            if i < L:
                out += la[i]
        want = ein([flat(la)] + ins, out, w.D(A), *arrs)
        fn = w.fn('mparray.inject')
        if isinstance(pos, tuple):
            r = w.call(fn, A, list(pos), None if all(n is None for n in n_args) else iter(n_args),
                       None if all(x is None for x in inj_args) else inj_args)
        else:
            r = w.call(fn, A, pos, n_args[0], inj_args[0])
        w.result(r, want, what='inject', f=fn)


for _L in (1, 2, 3):
    for _p in range(_L + 1):
        _inject(_L, _p, 1, None, 'quick')
        _inject(_L, _p, 2, 'one', 'quick')
        _inject(_L, _p, 2, 'seq', 'quick')
_inject(2, 1, 0, None, 'quick')
_inject(2, 1, 3, None, 'quick')
_inject(3, (0, 2), (1, 2), None, 'quick')
_inject(2, (1, 2), (2, 1), ('one', 'seq'), 'quick')
_inject(3, (1, 2), (1, 1), ('seq', None), 'quick')
_inject(2, (0, 1, 2), (1, 1, 1), ('one', 'one', 'seq'), 'quick')
_inject(2, (0, 1, 2), 2, 'seq', 'quick')


def _cyc(N, tier):
    def expected(w, ms, d):
        """Sum over i of term i on sites (i, i+1 mod N), axes site by site."""
        tot = None
        for i in range(N):
            a, b = i, (i + 1) % N
            rest = [k for k in range(N) if k not in (a, b)]
            ins = [[(a, 0), (a, 1), (b, 0), (b, 1)]] + [[(k, 0), (k, 1)] for k in rest]
            if i == N - 1:
                # the last term is stored with its first leg on the first site
                ins[0] = [(b, 0), (b, 1), (a, 0), (a, 1)]
            x = ein(ins, [(k, j) for k in range(N) for j in (0, 1)], w.D(ms[i]), *[eyeA(d)] * len(rest))
            tot = x if tot is None else tot + x
        return tot

    @case('mpo_cH[%d]' % N, 'C08', tier=tier)
    def f(w):
        d = w.dim('d')
        ms = [w.mpa('ABCDFG'[i], [(d, d)] * 2) for i in range(N)]
        want = expected(w, ms, d)
        fn = w.fn('utils.physics.mpo_cH')
        w.result(w.call(fn, ms), want, what='mpo_cH', f=fn)

    @case('sparse_cH[%d]' % N, 'C08', tier=tier, aspects=('alias', 'dtype'))
    def f(w):
        d = 2
        ms = [w.mpa('ABCDFG'[i], [(d, d)] * 2, bonds=[4]) for i in range(N)]
        want = expected(w, ms, d)
        glob = want.transpose([2 * k for k in range(N)] + [2 * k + 1 for k in range(N)]).reshape((d**N, d**N))
        fn = w.fn('utils.physics.sparse_cH')
        r = w.call(fn, ms)
        w.result(r.toarray(), glob, what='sparse_cH', f=fn, fresh=False)
        ts = [w.D(m).transpose((0, 2, 1, 3)).reshape((d**2, d**2)) for m in ms]
        r = w.call(fn, ts[:-1] + [ms[-1]], 2)
        w.result(r.toarray(), glob, what='sparse_cH of matrices', f=fn, fresh=False)
        r = w.call(fn, ts, ldim=2)
        w.result(r.toarray(), glob, what='sparse_cH of matrices', f=fn, fresh=False)

    @case('sparse_cH3[%d]' % N, 'C08', tier=tier, aspects=('alias', 'dtype'))
    def f(w):
        d = 3
        ms = [w.mpa('ABCDFG'[i], [(d, d)] * 2, bonds=[2]) for i in range(N)]
        want = expected(w, ms, d)
        glob = want.transpose([2 * k for k in range(N)] + [2 * k + 1 for k in range(N)]).reshape((d**N, d**N))
        fn = w.fn('utils.physics.sparse_cH')
        w.result(w.call(fn, ms, ldim=3).toarray(), glob, what='sparse_cH', f=fn, fresh=False)


for _N in (2, 3, 4):
    _cyc(_N, 'quick')
_cyc(5, 'thorough')


@case('cXY_local_terms', 'C08', aspects=('cform',), variants=False)
def f(w):
    g = w.scalar('gamma', F8)
    fn = w.fn('utils.physics.cXY_local_terms')
    X = real.array([[0, 1], [1, 0]]) / 2.
    Y = real.array([[0, -1j], [1j, 0]]) / 2.
    XX, YY = real.multiply.outer(X, X), real.multiply.outer(Y, Y)
    want = npm.arr_of(XX.astype(complex)) * (g + 1) + npm.arr_of(YY) * ((g * (-1)) + 1)
    for n in (1, 2, 3, 6):
        ts = w.call(fn, n, g)
        w.require(len(ts) == n, 'cXY_local_terms(%d) returns %d terms' % (n, len(ts)), w.locate(fn))
        for t in ts:
            w.result(t, want, what='cXY_local_terms', f=fn, fresh=False)


# =============================================================================================
# C09
# =============================================================================================
def rho_of(w, kind, A, L):
    """Density matrix with axes (i, j) per site from an MPS / PMPS / MPO."""
    D = w.D(A)
    if kind == 'mpdo':
        return D
    if kind == 'mps':
        ia = [('i', k) for k in range(L)]
        ib = [('j', k) for k in range(L)]
    else:
        ia = flat([[('i', k), ('a', k)] for k in range(L)])
        ib = flat([[('j', k), ('a', k)] for k in range(L)])
    return ein([ia, ib], flat([[('i', k), ('j', k)] for k in range(L)]), D, D.conj())


def reduce_rho(rho, L, keep):
    lab = flat([[('i', k), ('j', k) if k in keep else ('i', k)] for k in range(L)])
    return ein([lab], flat([[('i', k), ('j', k)] for k in range(L) if k in keep]), rho)


def state(w, kind, L, name='A'):
    if kind == 'mps':
        return w.mpa(name, [(w.dim('d%d' % i),) for i in range(L)])
    if kind == 'pmps':
        return w.mpa(name, [(w.dim('d%d' % i), w.dim('c%d' % i)) for i in range(L)])
    return w.mpa(name, [(w.dim('d%d' % i),) * 2 for i in range(L)])


def _conv(L, tier):
    @case('mps_to_pmps[%d]' % L, 'C09', tier=tier)
    def f(w):
        A = state(w, 'mps', L)
        fn = w.fn('mpsmpo.mps_to_pmps')
        D = w.D(A)
        want = D.reshape(flat([(s[0], 1) for s in A.shape]))
        w.result(w.call(fn, A), want, ranks=A.ranks, what='mps_to_pmps', f=fn, legs=[2] * L)

    @case('pmps_to_mps[%d]' % L, 'C09', tier=tier)
    def f(w):
        A = w.mpa('A', [(w.dim('d%d' % i), 1) for i in range(L)])
        fn = w.fn('mpsmpo.pmps_to_mps')
        want = w.D(A).reshape([s[0] for s in A.shape])
        w.result(w.call(fn, A), want, ranks=A.ranks, what='pmps_to_mps', f=fn, legs=[1] * L)

    @case('mps_to_mpo[%d]' % L, 'C09', tier=tier)
    def f(w):
        A = state(w, 'mps', L)
        fn = w.fn('mpsmpo.mps_to_mpo')
        want = rho_of(w, 'mps', A, L)
        w.result(w.call(fn, A), want, ranks=[r * r for r in A.ranks], what='mps_to_mpo', f=fn, legs=[2] * L)

    @case('pmps_to_mpo[%d]' % L, 'C09', tier=tier)
    def f(w):
        A = state(w, 'pmps', L)
        fn = w.fn('mpsmpo.pmps_to_mpo')
        want = rho_of(w, 'pmps', A, L)
        w.result(w.call(fn, A), want, ranks=[r * r for r in A.ranks], what='pmps_to_mpo', f=fn, legs=[2] * L)

    @case('pmps_dm_to_array[%d]' % L, 'C09', tier=tier, aspects=('alias', 'dtype'))
    def f(w):
        A = state(w, 'pmps', L)
        fn = w.fn('mpsmpo.pmps_dm_to_array')
        want = rho_of(w, 'pmps', A, L)
        w.result(w.call(fn, A), want, what='pmps_dm_to_array', f=fn)

    @case('pmps_dm_to_array_global[%d]' % L, 'C09', tier=tier, aspects=('alias', 'dtype'))
    def f(w):
        d = w.dim('d')
        A = w.mpa('A', [(d, w.dim('c%d' % i)) for i in range(L)])
        fn = w.fn('mpsmpo.pmps_dm_to_array')
        want = rho_of(w, 'pmps', A, L).transpose([2 * k for k in range(L)] + [2 * k + 1 for k in range(L)])
        w.result(w.call(fn, A, True), want, what='pmps_dm_to_array(global_)', f=fn)

    for one in range(L):
        @case('pmps_dm_to_array1[%d,%d]' % (L, one), 'C09', tier=tier, aspects=('alias',))
        def f(w, one=one):
            A = w.mpa('A', [(w.dim('d%d' % i) if i != one else 1, w.dim('c%d' % i)) for i in range(L)])
            fn = w.fn('mpsmpo.pmps_dm_to_array')
            want = rho_of(w, 'pmps', A, L)
            want = want.reshape([s for s in want.shape if s != 1])
            w.result(w.call(fn, A), want, what='pmps_dm_to_array', f=fn)


for _L in (1, 2, 3):
    _conv(_L, 'quick')
_conv(4, 'thorough')

RED = {'mpdo': ('reductions_mpo', 'mpdo', 'mpdo'), 'pmps': ('reductions_pmps', 'pmps', 'pmps'),
       'mps': ('reductions_mps_as_mpo', 'mps', 'mpdo'), 'mps_pmps': ('reductions_mps_as_pmps', 'mps', 'pmps')}


def _red(which, L, kw, slices, tier, mode=None):
    fname, kind, outkind = RED[which]
    kws = ','.join('%s=%s' % (k, v) for k, v in sorted(kw.items()))

    @case('%s[%d,%s%s]' % (fname, L, kws, ',mode' if mode else ''), 'C09', tier=tier)
    def f(w):
        A = state(w, kind, L)
        rho = rho_of(w, kind, A, L)
        fn = w.fn('mpsmpo.' + fname)
        if mode:
            fn = w.fn('mpsmpo.reductions')
            rs = w.call(fn, A, mode, **kw)
            rs, newmode = rs
            w.require(newmode == outkind, 'reductions(%r) reports mode %r' % (mode, newmode), w.locate(fn))
            rs = w.call(list, rs)
        else:
            rs = w.call(list, w.call(fn, A, **kw))
        w.require(len(rs) == len(slices), '%s yields %d of %d reduced states' % (fname, len(rs), len(slices)),
                  w.locate(fn))
        for r, (a, b) in zip(rs, slices):
            keep = list(range(a, b))
            want = reduce_rho(rho, L, keep)
            if 'value' in w.aspects or 'dtype' in w.aspects:
                got = rho_of(w, outkind, r, b - a)
                for asp in ('value', 'dtype'):
                    w.same(got, want, '%s: state on sites %d..%d' % (fname, a, b - 1), w.locate(fn), asp)
            w.result(r, what=fname, f=fn, recanon=('A',) if kind != 'mpdo' else ())
        w.result(A, rho if kind == 'mpdo' else None, what='state after ' + fname, f=fn, fresh=False,
                 recanon=('A',) if kind == 'pmps' else ())


for _w in RED:
    for _L in (1, 2, 3):
        for _wd in range(1, _L + 1):
            _red(_w, _L, dict(width=_wd), [(i, i + _wd) for i in range(_L - _wd + 1)], 'quick')
    _red(_w, 3, dict(width=1, startsites=[2, 0]), [(2, 3), (0, 1)], 'quick')
    _red(_w, 3, dict(width=2, startsites=(1,)), [(1, 3)], 'quick')
    _red(_w, 3, dict(startsites=[0, 1, 0, 2], stopsites=[1, 3, 3, 3]), [(0, 1), (1, 3), (0, 3), (2, 3)], 'quick')
    _red(_w, 3, dict(startsites=[2, 1, 0], stopsites=[3, 2, 2]), [(2, 3), (1, 2), (0, 2)], 'quick')
    _red(_w, 4, dict(startsites=[1, 2, 0], stopsites=[3, 4, 3]), [(1, 3), (2, 4), (0, 3)], 'thorough')
    _red(_w, 4, dict(width=2), [(0, 2), (1, 3), (2, 4)], 'thorough')
    for _ss in ([(1, 3), (1, 2)], [(1, 2), (1, 3), (1, 2)], [(0, 2), (0, 1), (0, 3)], [(1, 3), (2, 3), (1, 3)], [(0, 3), (1, 2), (0, 2)],
                [(2, 3), (2, 3)]):
        _red(_w, 3, dict(startsites=[x for x, _ in _ss], stopsites=[x for _, x in _ss]), _ss, 'quick')
    _red(_w, 5, dict(startsites=[1, 1, 2], stopsites=[4, 3, 3]), [(1, 4), (1, 3), (2, 3)], 'quick')
for _w, _m in (('mpdo', 'mpdo'), ('pmps', 'pmps'), ('mps_pmps', 'mps')):
    _red(_w, 3, dict(width=2), [(0, 2), (1, 3)], 'quick', _m)
    _red(_w, 3, dict(startsites=[0, 1], stopsites=[2, 2]), [(0, 2), (1, 2)], 'quick', _m)


def _pmpsred(L, support, tier):
    keep = sorted(set(support))

    @case('pmps_reduction[%d,%s]' % (L, support), 'C09', tier=tier)
    def f(w):
        A = state(w, 'pmps', L)
        rho = rho_of(w, 'pmps', A, L)
        fn = w.fn('mpsmpo.pmps_reduction')
        r = w.call(fn, A, support)
        n = max(keep) - min(keep) + 1
        if w.is_mpa(r) and len(w.lts(r)) == n:
            got = rho_of(w, 'pmps', r, n)
            want = reduce_rho(rho, L, keep)
            shp = []
            for i in range(min(keep), max(keep) + 1):
                shp += [want.shape[2 * keep.index(i)]] * 2 if i in keep else [1, 1]
            for asp in ('value', 'dtype'):
                w.same(got, want.reshape(shp), 'pmps_reduction(%s)' % (support,), w.locate(fn), asp)
        else:
            w.require(False, 'pmps_reduction(%s): result has %d sites instead of %d' % (
                support, len(w.lts(r)), n), w.locate(fn))
        w.result(r, what='pmps_reduction', f=fn, recanon=('A',))


for _L in (1, 2, 3):
    for _k in range(1, _L + 1):
        for _s in itertools.combinations(range(_L), _k):
            _pmpsred(_L, list(_s), 'quick')
for _s in ([0, 3], [1, 3], [0, 2, 3], [3, 0], [2, 0, 3]):
    _pmpsred(4, _s, 'quick')
_pmpsred(5, [0, 2, 4], 'thorough')
_pmpsred(5, [1, 3], 'thorough')
