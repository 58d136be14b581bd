"""Sampling (C21) and estimation from samples (C22).

The state, the POVM, outcome functions, coefficients, weights and prefactors are symbolic; the outcomes that were
drawn are enumerated constants (they are index data)."""
import itertools as it
import numpy as real
from . import tn, npm
from .npm import Arr, EV
from .cases import case
from .specs_core import ein, flat, nm
from .specs_opts import Stub
from .specs_povm import povm, state, rho_of, probs, normalised, real_part, trace_out
from .specs_rng import caller
from .world import F8, C16, Violation

ML = 'povm.mppovm.MPPovmList'


def rows(a):
    a = npm.arr_of(a) if npm.is_abs(a) else real.asarray(a)
    if isinstance(a, Arr):
        c = npm.concrete_arr(a)
        if c is None:
            raise tn.Unsupported('samples are no concrete outcomes')
        a = c
    return [tuple(int(x) for x in r) for r in a]


def stack(xs):
    return npm.array(list(xs)) if hasattr(npm, 'array') else xs


def listof(p):
    """Entries of a probability vector handed to the generator."""
    if hasattr(p, '__iter__') and not isinstance(p, (Arr, real.ndarray)):
        return [x for x in p]
    a = npm.arr_of(p).ravel()
    return [a[i] for i in range(int(a.shape[0]))]


def prod(xs):
    r = 1.
    for x in xs:
        r = r * x
    return r


# -- sampling --------------------------------------------------------------------------------------
def _sampling(method, mode, outd, hd, group, n, picks, tier='quick', cplx=True, lst=False, auto=False):
    """The product of the probabilities under which the generator was asked to draw equals the joint probability of the
    rows that are returned, for an enumerated set of drawn outcomes."""
    L = len(outd)

    @case('sampling[%s,%s,%s,%d,%d,%d,%s,%s]' % (method, mode, nm(outd), group, n, picks, lst, auto), 'C21', aspects=(), tier=tier,
          variants=False)
    def f(w):
        EV.assume_nonneg = True
        M = povm(w, 'A', outd, hd, [2] * (L - 1), dtype=None if cplx else F8)
        S = state(w, 'B', hd, mode, bonds=[2] * (L - 1), dtype=None if cplx else F8)
        P = normalised(probs(w, w.D(M), rho_of(w, S, mode), L), outd)
        obj = w.call(w.fn(ML), [M, M]) if lst else M
        m = type(obj).sample
        used = []
        rs = caller()

        def choice(a, size, replace, p):
            if p is None:
                raise Violation('draws outcomes without probabilities', w.locate(m))
            q = listof(p)
            size_a = len(a) if hasattr(a, '__len__') else int(a)
            w.require(len(q) == size_a, 'draws from %d outcomes with %d probabilities' % (size_a, len(q)), w.locate(m))
            tot = q[0]
            for x in q[1:]:
                tot = tot + x
            w.same(tot, npm.arr_of(1.), 'probabilities handed to the generator do not sum to one', w.locate(m))
            k = 1 if size is None else int(size)
            w.require(replace or k == 1, 'outcomes are drawn without replacement', w.locate(m))
            c = [(picks * 7 + 3 * len(used) + 5 * i * i + (i * picks) % 3) % size_a for i in range(k)]
            used.extend(q[x] for x in c)
            vals = [a[x] if hasattr(a, '__len__') else x for x in c]
            return vals[0] if size is None else real.array(vals)
        rs.choice_hook = choice
        kw = {} if auto else dict(mode=mode)
        r = w.call(obj.sample, rs, S, n, method, n_group=group, **kw)
        res = list(r) if lst else [r]
        w.require(len(res) == (2 if lst else 1), 'sample: %d results' % len(res), w.locate(m))
        ns = [o for o in outd if o > 1]
        want = []
        for x in res:
            w.require(tuple(x.shape) == (n, len(ns)), 'sample: shape %s instead of %s' % (tuple(x.shape), (n, len(ns))), w.locate(m))
            for row in rows(x):
                w.require(all(0 <= a < b for a, b in zip(row, ns)), 'sample: outcome %s out of range' % (row,), w.locate(m))
                want.append(P[row])
        w.same(prod(used), prod(want), 'the probability with which the samples %s are drawn is not their outcome probability' % (
            [rows(x) for x in res],), w.locate(m))


for _mode in ('mps', 'mpdo', 'pmps'):
    for _k in range(3):
        _sampling('direct', _mode, [2, 3], [2, 2], 1, 2, _k)
        _sampling('cond', _mode, [2, 3], [2, 2], 1, 1, _k)
        _sampling('cond', _mode, [2, 3], [2, 2], 1, 2, _k)
        _sampling('cond', _mode, [3, 2], [2, 2], 2, 1, _k)
    for _k in range(2):
        _sampling('direct', _mode, [3, 1, 2], [2, 2, 2], 1, 2, _k)
        _sampling('cond', _mode, [3, 1, 2], [2, 2, 2], 1, 1, _k)
        _sampling('cond', _mode, [1, 2, 3], [2, 2, 2], 1, 1, _k)
        _sampling('cond', _mode, [2, 3, 2], [2, 2, 2], 2, 1, _k)
        _sampling('cond', _mode, [2, 3, 2], [2, 2, 2], 1, 1, _k)
    _sampling('cond', _mode, [2, 2, 3], [2, 2, 2], 5, 1, 1)
    _sampling('direct', _mode, [3], [2], 1, 3, 1)
    _sampling('cond', _mode, [3], [2], 1, 2, 1)
    _sampling('cond', _mode, [2, 2, 2, 3], [2, 2, 2, 2], 2, 1, 1, tier='thorough')
    _sampling('cond', _mode, [2, 2, 2, 3], [2, 2, 2, 2], 3, 1, 2, tier='thorough')
    _sampling('direct', _mode, [2, 3], [2, 2], 1, 2, 1, lst=True)
    _sampling('cond', _mode, [2, 3], [2, 2], 1, 1, 1, lst=True)
for _mode in ('mps', 'mpdo'):
    _sampling('direct', _mode, [2, 3], [2, 2], 1, 2, 1, auto=True)
    _sampling('cond', _mode, [2, 3], [2, 2], 1, 1, 1, auto=True)


PACKS = ([3], [2, 3], [3, 1, 2], [1, 4, 1, 2], [2, 2, 3], [6, 6, 6], [255, 2], [2, 255, 3], [16, 16], [8, 16], [43, 3], [32, 32, 32],
         [200, 200])


def some_rows(ns, cap=60):
    al = list(it.product(*[range(d) for d in ns])) if real.prod(ns) <= cap else \
        [tuple((a * (i + 3) + b * b) % d for i, d in enumerate(ns)) for a in range(6) for b in range(6)] + [tuple(d - 1 for d in ns)]
    return al


def _pack(outd):
    @case('pack_samples[%s]' % nm(outd), 'C21', aspects=(), variants=False)
    def f(w):
        M = povm(w, 'A', outd, [2] * len(outd), [1] * (len(outd) - 1))
        ns = [d for d in outd if d > 1]
        al = some_rows(ns)
        s = real.array(al, dtype=real.uint8)
        packed = w.call(M.pack_samples, s)
        want = real.ravel_multi_index(s.T.astype(int), ns)
        w.same(packed, want, 'pack_samples', w.locate(type(M).pack_samples))
        back = w.call(M.unpack_samples, want)
        w.require(tuple(back.shape) == s.shape and rows(back) == al, 'unpack_samples does not undo pack_samples', w.locate(type(M).unpack_samples))
        w.require(npm.promote(back) == real.dtype(real.uint8), 'unpack_samples returns %s' % npm.promote(back), w.locate(type(M).unpack_samples))
        for dt in (real.int8, real.uint8, real.int16, real.uint16, real.int32, real.uint32, real.int64, real.uint64):
            if want.max() > real.iinfo(dt).max:
                w.rejects(M.pack_samples, s, dt)
            else:
                w.same(w.call(M.pack_samples, s, dt), want, 'pack_samples(dtype=%s)' % dt.__name__, w.locate(type(M).pack_samples))
        Lst = w.call(w.fn(ML), [M, M])
        for got in w.call(Lst.pack_samples, [s, s]):
            w.same(got, want, 'MPPovmList.pack_samples', w.locate(type(Lst).pack_samples))
        for got in w.call(Lst.unpack_samples, [want, want]):
            w.require(rows(got) == al, 'MPPovmList.unpack_samples', w.locate(type(Lst).unpack_samples))

    @case('est_pmf[%s]' % nm(outd), 'C22', aspects=(), variants=False)
    def f(w):
        M = povm(w, 'A', outd, [2] * len(outd), [1] * (len(outd) - 1))
        ns = [d for d in outd if d > 1]
        al = some_rows(ns)
        data = [al[(k * k + 1) % len(al)] for k in range(7)]
        s = real.array(data, dtype=real.uint8)
        cnt = real.zeros(ns, int)
        for x in data:
            cnt[x] += 1
        Lst = w.call(w.fn(ML), [M, M])
        for smp in (s, real.ravel_multi_index(s.T.astype(int), ns)):
            w.same(w.call(M.est_pmf, smp), cnt / 7., 'est_pmf', w.locate(type(M).est_pmf))
            w.same(w.call(M.est_pmf, smp, normalize=False), cnt, 'est_pmf(normalize=False)', w.locate(type(M).est_pmf))
        for got in w.call(Lst.est_pmf, [s, s]):
            w.same(got, cnt / 7., 'MPPovmList.est_pmf', w.locate(type(Lst).est_pmf))


for _o in PACKS:
    _pack(_o)


# -- linear functions of outcomes ------------------------------------------------------------------
class Fun(object):
    """Symbolic function of outcomes: f(rows) returns one symbolic value per row."""

    def __init__(self, w, name, dims):
        self.t = w.opaque(name, tuple(dims), F8)
        self.dims = dims

    def __call__(self, out):
        rs = rows(out)
        if any(len(r) != len(self.dims) for r in rs):
            raise Violation('outcome function receives outcomes of %s sites' % (len(rs[0]) if rs else 0))
        return npm.array([self.t[r] for r in rs])


def dots(c, x):
    return prod_sum(c, x)


def prod_sum(c, x):
    r = 0.
    for a, b in zip(c, x):
        r = r + a * b
    return r


def moments(vals, wts, tot):
    """means and covariance numerators: vals[i][k]."""
    n = len(vals)
    mean = [prod_sum(v, wts) / tot for v in vals]
    cov = [[prod_sum([a * b for a, b in zip(vals[i], vals[j])], wts) / tot - mean[i] * mean[j] for j in range(n)] for i in range(n)]
    return mean, cov


def lincomb(w, co, mean, cov, div=1.):
    n = len(mean)
    est = prod_sum([co[i] for i in range(n)], mean)
    var = 0.
    for i in range(n):
        for j in range(n):
            var = var + co[i] * cov[i][j] * co[j]
    return est, var / div


def clamp(w, got, var, what, loc):
    """The variance, or zero where it is negative."""
    for ch in (var, npm.arr_of(0.)):
        try:
            w.same(got, ch, what, loc)
            return
        except Violation:
            if ch is not var:
                pass
    w.same(got, var, what, loc)


def _lfun(outd, mode, nf, tier='quick'):
    L = len(outd)
    ns = [d for d in outd if d > 1]
    al = list(it.product(*[range(d) for d in ns]))

    def setup(w):
        EV.assume_nonneg = True
        M = povm(w, 'A', outd, [2] * L, [2] * (L - 1))
        S = state(w, 'B', [2] * L, mode, bonds=[2] * (L - 1))
        p = w.opaque('p', tuple(ns), F8)
        M.pmf_as_array = Stub(('state', 'mode', 'eps', 'impl'), {}, lambda b: p)
        return M, S, p

    def vals_of(w, fs):
        return [[g.t[r] for r in al] for g in fs]

    for none in (False, True):
        @case('lfun_values[%s,%s,%d,%s]' % (nm(outd), mode, nf, none), 'C22', aspects=(), variants=False, tier=tier)
        def f(w, none=none):
            M, S, p = setup(w)
            fs = [Fun(w, 'f%d' % i, ns) for i in range(nf)]
            vals = vals_of(w, fs)
            if none:
                vals = [[1. if r == q else 0. for r in al] for q in al]
            n = len(vals)
            co = w.opaque('co', (n,), F8)
            mean, cov = moments(vals, [p[r] for r in al], 1.)
            m = type(M).lfun
            e, v = w.call(M.lfun, co, None if none else fs, S, mode)
            est, var = lincomb(w, co, mean, cov)
            w.same(e, est, 'lfun: value', w.locate(m))
            clamp(w, v, var, 'lfun: variance', w.locate(m))
            e, c = w.call(M.lfun, None, None if none else fs, S, mode)
            for i in range(n):
                w.same(npm.arr_of(e)[i], mean[i], 'lfun(coeff=None): value %d' % i, w.locate(m))
                for j in range(n):
                    w.same(npm.arr_of(c)[i, j], cov[i][j], 'lfun(coeff=None): covariance %d,%d' % (i, j), w.locate(m))

    @case('list_lfun_values[%s,%s,%d]' % (nm(outd), mode, nf), 'C22', aspects=(), variants=False, tier=tier)
    def f(w):
        EV.assume_nonneg = True
        Ms = [povm(w, n, outd, [2] * L, [2] * (L - 1)) for n in 'AC']
        S = state(w, 'B', [2] * L, mode, bonds=[2] * (L - 1))
        Lst = w.call(w.fn(ML), Ms)
        stubs, rets = [], []
        for k, M in enumerate(Lst.mpps):
            rets.append((w.opaque('v%d' % k, (), F8), w.opaque('u%d' % k, (), F8)))
            st = Stub(('coeff', 'funs', 'state', 'mode', 'eps'), {}, lambda b, k=k: rets[k])
            M.lfun = st
            stubs.append(st)
        co = [w.opaque('co%d' % k, (nf,), F8) for k in range(2)]
        fs = [[Fun(w, 'f%d' % i, ns) for i in range(nf)] for k in range(2)]
        m = type(Lst).lfun
        for g in (fs, None):
            e, v = w.call(Lst.lfun, co, g, S, mode)
            w.same(e, rets[0][0] + rets[1][0], 'MPPovmList.lfun: value', w.locate(m))
            w.same(v, rets[0][1] + rets[1][1], 'MPPovmList.lfun: variance', w.locate(m))
            for k, st in enumerate(stubs):
                b = st.calls[-1]
                w.require(b['coeff'] is co[k] and b['funs'] is (g[k] if g else None) and b['state'] is S,
                          'MPPovmList.lfun: POVM %d receives the arguments of another one' % k, w.locate(m))


_lfun([2, 3], 'mps', 2)
_lfun([2, 3], 'mpdo', 1)
_lfun([3], 'pmps', 3)
_lfun([2, 1, 2], 'mpdo', 2)


def _certain(outd):
    """A certain outcome or a constant function: variance zero is a valid result and not an error."""
    L = len(outd)
    ns = [d for d in outd if d > 1]
    al = list(it.product(*[range(d) for d in ns]))

    @case('lfun_certain[%s]' % nm(outd), 'C22', aspects=(), variants=False)
    def f(w):
        M = povm(w, 'A', outd, [2] * L, [2] * (L - 1))
        S = state(w, 'B', [2] * L, 'mpdo', bonds=[2] * (L - 1))
        m = type(M).lfun
        for k in (0, len(al) - 1):
            p = real.zeros(ns)
            p[al[k]] = 1.
            M.pmf_as_array = Stub(('state', 'mode', 'eps', 'impl'), {}, lambda b: p)
            co = real.arange(1., 1. + len(al))
            for fs in (None, [(lambda x, i=i: x[:, 0] + 1. * i) for i in range(len(al))]):
                e, v = w.call(M.lfun, co, fs, S, 'mpdo')
                want = co[k] if fs is None else float(real.inner(co, al[k][0] + real.arange(len(al))))
                w.same(e, npm.arr_of(want), 'lfun: value for a certain outcome', w.locate(m))
                w.same(v, npm.arr_of(0.), 'lfun: variance for a certain outcome', w.locate(m))
        q = real.array([[1., 2., 1.], [2., 1., 1.]][:1] if len(al) == 3 else [1., 2., 1., 2., 1., 1.]).reshape(ns) / (4. if len(al) == 3 else 8.)
        M.pmf_as_array = Stub(('state', 'mode', 'eps', 'impl'), {}, lambda b: q)
        e, v = w.call(M.lfun, real.array([2.]), [lambda x: real.ones(len(x))], S, 'mpdo')
        w.same(e, npm.arr_of(2.), 'lfun: value of a constant', w.locate(m))
        w.same(v, npm.arr_of(0.), 'lfun: variance of a constant', w.locate(m))

    @case('est_lfun_certain[%s]' % nm(outd), 'C22', aspects=(), variants=False)
    def f(w):
        M = povm(w, 'A', outd, [2] * L, [2] * (L - 1))
        m = type(M).est_lfun
        for k in (0, len(al) - 1):
            s = real.array([al[k]] * 4, dtype=real.uint8)
            co = real.arange(1., 1. + len(al))
            for wt in (None, real.array([1., 2., 1., 1.])):
                kw = {} if wt is None else dict(weights=wt)
                e, v = w.call(M.est_lfun, co, None, s, **kw)
                w.same(e, npm.arr_of(co[k]), 'est_lfun: estimate from equal samples', w.locate(m))
                w.same(v, npm.arr_of(0.), 'est_lfun: variance from equal samples', w.locate(m))


_certain([3])
_certain([2, 3])
_certain([2, 1, 3])


SAMP = {2: real.array([[0, 1], [1, 2], [1, 1], [0, 0], [1, 1]], dtype=real.uint8),
        1: real.array([[0], [2], [1], [1]], dtype=real.uint8)}


def _est(outd, nf):
    L = len(outd)
    ns = [d for d in outd if d > 1]
    al = list(it.product(*[range(d) for d in ns]))
    smp = SAMP[len(ns)]
    rs = [tuple(int(x) for x in r) for r in smp]

    for none in (False, True):
        for wt in (False, 'f', 'i'):
            @case('est_lfun_values[%s,%d,%s,%s]' % (nm(outd), nf, none, wt), 'C22', aspects=(), variants=False)
            def f(w, none=none, wt=wt):
                EV.assume_nonneg = True
                M = povm(w, 'A', outd, [2] * L, [2] * (L - 1))
                fs = [Fun(w, 'f%d' % i, ns) for i in range(nf)]
                vals = [[(1. if r == q else 0.) for r in rs] for q in al] if none else [[g.t[r] for r in rs] for g in fs]
                n = len(vals)
                co = w.opaque('co', (n,), F8)
                if wt:
                    W = w.opaque('wt', (len(rs),), F8) if wt == 'f' else real.array([3, 1, 2, 1, 5][:len(rs)])
                    wts = [W[k] for k in range(len(rs))]
                    tot = prod_sum([1.] * len(rs), wts)
                else:
                    W, wts, tot = None, [1.] * len(rs), float(len(rs))
                mean, cov = moments(vals, wts, tot)
                m = type(M).est_lfun
                kw = {} if W is None else dict(weights=W)
                e, v = w.call(M.est_lfun, co, None if none else fs, smp, **kw)
                est, var = lincomb(w, co, mean, cov, tot - 1)
                w.same(e, est, 'est_lfun: estimate', w.locate(m))
                clamp(w, v, var, 'est_lfun: variance of the estimate', w.locate(m))
                e, c = w.call(M.est_lfun, None, None if none else fs, smp, **kw)
                for i in range(n):
                    w.same(npm.arr_of(e)[i], mean[i], 'est_lfun(coeff=None): estimate %d' % i, w.locate(m))
                    for j in range(n):
                        w.same(npm.arr_of(c)[i, j], cov[i][j] / (tot - 1), 'est_lfun(coeff=None): covariance %d,%d' % (i, j), w.locate(m))

    @case('list_est_lfun_values[%s,%d]' % (nm(outd), nf), 'C22', aspects=(), variants=False)
    def f(w):
        EV.assume_nonneg = True
        Ms = [povm(w, n, outd, [2] * L, [2] * (L - 1)) for n in 'AC']
        Lst = w.call(w.fn(ML), Ms)
        stubs, rets = [], []
        for k, M in enumerate(Lst.mpps):
            rets.append((w.opaque('v%d' % k, (), F8), w.opaque('u%d' % k, (), F8)))
            st = Stub(('coeff', 'funs', 'samples', 'weights', 'eps'), {}, lambda b, k=k: rets[k])
            M.est_lfun = st
            stubs.append(st)
        co = [w.opaque('co%d' % k, (nf,), F8) for k in range(2)]
        fs = [[Fun(w, 'f%d' % i, ns) for i in range(nf)] for k in range(2)]
        sm = [smp, smp[:2]]
        m = type(Lst).est_lfun
        for g in (fs, None):
            e, v = w.call(Lst.est_lfun, co, g, sm)
            w.same(e, rets[0][0] + rets[1][0], 'MPPovmList.est_lfun: estimate', w.locate(m))
            w.same(v, rets[0][1] + rets[1][1], 'MPPovmList.est_lfun: variance', w.locate(m))
            for k, st in enumerate(stubs):
                b = st.calls[-1]
                w.require(b['coeff'] is co[k] and b['funs'] is (g[k] if g else None) and b['samples'] is sm[k],
                          'MPPovmList.est_lfun: POVM %d receives the arguments of another one' % k, w.locate(m))


_est([2, 3], 2)
_est([3], 1)
_est([2, 1, 3], 2)


# -- estimation from other POVMs -------------------------------------------------------------------
def matching(w, name, sdims, odims, pairs):
    """Boolean matches (concrete) and prefactors (symbolic on matches, nan elsewhere)."""
    match = real.zeros(tuple(sdims) + tuple(odims), bool)
    for a, b in pairs:
        match[tuple(a) + tuple(b)] = True
    pf = w.opaque(name, match.shape, F8)
    pre = npm.array([pf[i] if match[i] else real.nan for i in real.ndindex(*match.shape)]).reshape(match.shape)
    return match, pre, pf


FROM = (
    # self outcomes, other POVMs: (outcomes, matched pairs of (self outcome, other outcome on the common sites))
    ('same', [2, 3], (([2, 3], [((0, 0), (0, 0)), ((0, 1), (0, 2)), ((1, 2), (1, 1)), ((1, 0), (0, 1))]),)),
    ('wider', [2, 1], (([2, 3], [((0,), (1,)), ((1,), (0,))]),)),
    ('left', [1, 3], (([2, 3], [((0,), (1,)), ((2,), (0,)), ((1,), (2,))]),)),
    ('two', [1, 3], (([2, 3], [((0,), (1,)), ((2,), (0,)), ((1,), (2,))]), ([3, 2], [((0,), (1,)), ((2,), (0,))]))),
    ('dup', [1, 2], (([2, 3], [((0,), (1,)), ((0,), (0,)), ((1,), (2,))]), ([1, 2], [((1,), (1,)), ((0,), (1,))]))),
    ('gap', [2, 1, 2], (([2, 3, 2], [((0, 0), (0, 0)), ((0, 1), (0, 1)), ((1, 0), (1, 1)), ((1, 1), (1, 0))]),
                        ([3, 1, 2], [((0, 0), (0, 0)), ((1, 1), (2, 1))]))),
)


def sites(sd, od):
    """positions (among the non-singleton outcomes of other) of the sites both measure; dims there."""
    pos = [k for k, o in enumerate(od) if o > 1]
    supp = [i for i, k in enumerate(pos) if sd[k] > 1]
    return supp, [od[pos[i]] for i in supp]


def data(od, n, seed):
    ns = [o for o in od if o > 1]
    g = real.random.RandomState(31 + seed)
    return real.array([[g.randint(d) for d in ns] for k in range(n)], dtype=real.uint8)


def _from(label, sd, others):
    L = len(sd)
    ns = [d for d in sd if d > 1]

    def setup(w):
        EV.assume_nonneg = True
        M = povm(w, 'A', sd, [2] * L, [1] * (L - 1))
        Os = [povm(w, 'C%d' % k, od, [2] * L, [1] * (L - 1)) for k, (od, _) in enumerate(others)]
        Ls, Lo = w.call(w.fn(ML), [M]), w.call(w.fn(ML), Os)
        mats = [matching(w, 'pf%d' % k, ns, sites(sd, od)[1], pairs) for k, (od, pairs) in enumerate(others)]

        def ret(b):
            for k, o in enumerate(Lo.mpps):
                if b['other'] is o:
                    return mats[k][0].copy(), mats[k][1].copy()
            raise Violation('match_elems is asked about an unknown POVM')
        Ls.mpps[0].match_elems = Stub(('other', 'exclude_dup', 'eps'), {}, ret)
        return Ls, Lo, mats

    def wide(k):
        """other outcome (all sites) -> outcome on common sites"""
        supp = sites(sd, others[k][0])[0]
        return lambda r: tuple(r[i] for i in supp)

    def avail(nw):
        av = {}
        for k, (od, pairs) in enumerate(others):
            for a, b in pairs:
                av[a] = av.get(a, 0) + nw[k]
        return av

    for wt in () if label == 'gap' else (None, (1, 3), (.5, .25), (1.5, .75)):
        for full in (True, False):
            @case('lfun_from_values[%s,%s,%s]' % (label, wt, full), 'C22', aspects=(), variants=False)
            def f(w, wt=wt, full=full):
                Ls, Lo, mats = setup(w)
                S = state(w, 'B', [2] * L, 'mpdo', bonds=[1] * (L - 1))
                ps = []
                for k, o in enumerate(Lo.mpps):
                    od = [d for d in others[k][0] if d > 1]
                    ps.append(w.opaque('p%d' % k, tuple(od), F8))
                    o.pmf_as_array = Stub(('state', 'mode', 'eps', 'impl'), {}, lambda b, k=k: ps[k])
                nw = [1.] * len(others) if wt is None else list(wt)[:len(others)]
                av = avail(nw)
                co = real.zeros(ns)
                for i, r in enumerate(real.ndindex(*ns)):
                    if full or r in av:
                        co[r] = (1.5, 2., -3., .5, 4., 7., 2.5, 1.)[i % 8]
                m = type(Ls).lfun_from
                kw = {} if wt is None else dict(other_weights=real.array(nw))
                e, v = w.call(Ls.lfun_from, Lo, [co], S, 'mpdo', **kw)
                if any(co[r] != 0 and r not in av for r in real.ndindex(*ns)):
                    w.require(not npm.is_abs(e) and e != e and v != v, 'lfun_from returns a value although probabilities are missing', w.locate(m))
                    return
                est, var = 0., 0.
                for k, (od, pairs) in enumerate(others):
                    nso = [d for d in od if d > 1]
                    al = list(it.product(*[range(d) for d in nso]))
                    vals = [[1. if wide(k)(r) == b else 0. for r in al] for a, b in pairs]
                    cf = [co[a] * nw[k] / av[a] * mats[k][2][a + b] for a, b in pairs]
                    mean, cov = moments(vals, [ps[k][r] for r in al], 1.)
                    x, y = lincomb(w, cf, mean, cov)
                    est, var = est + x, var + y
                w.same(e, est, 'lfun_from: value', w.locate(m))
                clamp_sum(w, v, var, 'lfun_from: variance', w.locate(m))

    @case('est_lfun_from_values[%s]' % label, 'C22', aspects=(), variants=False)
    def f(w):
        Ls, Lo, mats = setup(w)
        n = [5, 3][:len(others)]
        smp = [data(od, n[k], k + 1) for k, (od, _) in enumerate(others)]
        av = avail(n)
        co = real.zeros(ns)
        for i, r in enumerate(real.ndindex(*ns)):
            if r in av:
                co[r] = (1.5, 2., -3., .5, 4., 7., 2.5, 1.)[i % 8]
        m = type(Ls).est_lfun_from
        e, v = w.call(Ls.est_lfun_from, Lo, [co], smp)
        est, var = 0., 0.
        for k, (od, pairs) in enumerate(others):
            rs = [tuple(int(x) for x in r) for r in smp[k]]
            vals = [[1. if wide(k)(r) == b else 0. for r in rs] for a, b in pairs]
            cf = [co[a] * n[k] / av[a] * mats[k][2][a + b] for a, b in pairs]
            mean, cov = moments(vals, [1.] * n[k], float(n[k]))
            x, y = lincomb(w, cf, mean, cov, n[k] - 1.)
            est, var = est + x, var + y
        w.same(e, est, 'est_lfun_from: estimate', w.locate(m))
        clamp_sum(w, v, var, 'est_lfun_from: variance', w.locate(m))
        bad = [r for r in real.ndindex(*ns) if r not in av]
        if bad:
            co[bad[0]] = 1.
            e, v = w.call(Ls.est_lfun_from, Lo, [co], smp)
            w.require(not npm.is_abs(e) and e != e and v != v, 'est_lfun_from returns a value although probabilities are missing', w.locate(m))

    for k, (od, pairs) in enumerate(others):
        @case('est_pmf_from_values[%s,%d]' % (label, k), 'C22', aspects=(), variants=False)
        def f(w, k=k, od=od, pairs=pairs):
            Ls, Lo, mats = setup(w)
            M, O = Ls.mpps[0], Lo.mpps[k]
            if not hasattr(M, '_elemsum_identity'):
                from .dims import Unsupported
                raise Unsupported('no _elemsum_identity')
            M._elemsum_identity = Stub(('support', 'given', 'eps'), {}, lambda b: w.opaque('frac', (), F8))
            smp = data(od, 6, k + 2)
            rs = [wide(k)(tuple(int(x) for x in r)) for r in smp]
            m = type(M).est_pmf_from
            p, n = w.call(M.est_pmf_from, O, smp)
            w.require(tuple(p.shape) == tuple(ns), 'est_pmf_from: shape %s' % (tuple(p.shape),), w.locate(m))
            for r in real.ndindex(*ns):
                bs = [b for a, b in pairs if a == r]
                got = npm.arr_of(p)[r]
                if not bs:
                    w.require(is_nan(got), 'est_pmf_from gives a value for an outcome without information', w.locate(m))
                    continue
                want = 0.
                for b in bs:
                    want = want + mats[k][2][r + b] * (rs.count(b) / 6.)
                w.same(got, want, 'est_pmf_from: outcome %s' % (r,), w.locate(m))
            used = sum(1 for x in rs if any(b == x for a, b in pairs))
            w.require(int(n) == used, 'est_pmf_from reports %s of %d used samples' % (n, used), w.locate(m))

    @case('est_pmf_from_mpps_values[%s]' % label, 'C22', aspects=(), variants=False)
    def f(w):
        Ls, Lo, mats = setup(w)
        M = Ls.mpps[0]
        n = [5, 3][:len(others)]
        smp = [data(od, 4, k + 1) for k, (od, _) in enumerate(others)]
        qs = [w.opaque('q%d' % k, tuple(ns), F8) for k in range(len(others))]
        given = [set(a for a, b in pairs) for od, pairs in others]
        order = []

        def ret(b):
            for k, o in enumerate(Lo.mpps):
                if b['other'] is o:
                    w.require(b['samples'] is smp[k], 'est_pmf_from_mpps: POVM %d receives other samples' % k, w.locate(type(M).est_pmf_from_mpps))
                    return real.array([(1. + 10 * k + i) / 7 if r in given[k] else real.nan for i, r in enumerate(real.ndindex(*ns))]).reshape(ns), n[k]
            raise Violation('est_pmf_from is asked about an unknown POVM')
        M.est_pmf_from = Stub(('other', 'samples', 'eps'), {}, ret)
        m = type(M).est_pmf_from_mpps
        p, used = w.call(M.est_pmf_from_mpps, Lo, smp)
        for i, r in enumerate(real.ndindex(*ns)):
            ks = [k for k in range(len(others)) if r in given[k]]
            tot = sum(n[k] for k in ks)
            w.require(int(npm.arr_of(used)[r]) == tot if not npm.is_abs(used) else False, 'est_pmf_from_mpps reports %s of %d samples' % (used, tot), w.locate(m))
            got = npm.arr_of(p)[r] if npm.is_abs(p) else p[r]
            if not ks:
                w.require(is_nan(got), 'est_pmf_from_mpps gives a value for an outcome without information', w.locate(m))
            else:
                want = sum(n[k] * (1. + 10 * k + i) / 7 for k in ks) / tot
                w.same(got, npm.arr_of(want), 'est_pmf_from_mpps: outcome %s' % (r,), w.locate(m))


def is_nan(x):
    if npm.is_abs(x):
        return npm.has_nan(npm.ten_of(x))
    return bool(x != x)


def clamp_sum(w, got, var, what, loc):
    w.same(got, var, what, loc)


for _a in FROM:
    _from(*_a)


def _from_list(label, selfs, others, pairs):
    """Lists of several POVMs on both sides; pairs[s, k]: matching outcomes of self POVM s and other POVM k."""
    L = len(selfs[0])
    nss = [tuple(d for d in sd if d > 1) for sd in selfs]

    def setup(w):
        EV.assume_nonneg = True
        Ms = [povm(w, 'A%d' % i, sd, [2] * L, [1] * (L - 1)) for i, sd in enumerate(selfs)]
        Os = [povm(w, 'C%d' % k, od, [2] * L, [1] * (L - 1)) for k, od in enumerate(others)]
        Ls, Lo = w.call(w.fn(ML), Ms), w.call(w.fn(ML), Os)
        mats = {}
        for i, sd in enumerate(selfs):
            for k, od in enumerate(others):
                mats[i, k] = matching(w, 'pf%d%d' % (i, k), nss[i], sites(sd, od)[1], pairs.get((i, k), ()))

            def ret(b, i=i):
                for k, o in enumerate(Lo.mpps):
                    if b['other'] is o:
                        return mats[i, k][0].copy(), mats[i, k][1].copy()
                raise Violation('match_elems is asked about an unknown POVM')
            Ls.mpps[i].match_elems = Stub(('other', 'exclude_dup', 'eps'), {}, ret)
        return Ls, Lo, mats

    def avail(nw):
        av = [{} for s in selfs]
        for i in range(len(selfs)):
            for k in range(len(others)):
                for a, b in pairs.get((i, k), ()):
                    av[i][a] = av[i].get(a, 0) + nw[k]
        return av

    def coeffs(av, extra=None):
        cs, n = [], 0
        for i, ns in enumerate(nss):
            co = real.zeros(ns)
            for r in real.ndindex(*ns):
                n += 1
                if r in av[i] or i == extra:
                    co[r] = (1.5, 2., -3., .5, 4., 7., 2.5, 1., -2.)[n % 9]
            cs.append(co)
        return cs

    def value(w, mats, cs, av, nw, rows, weights, tot, denom):
        est, var = 0., 0.
        for k, od in enumerate(others):
            vals, cf = [], []
            for i, sd in enumerate(selfs):
                supp = sites(sd, od)[0]
                for a, b in pairs.get((i, k), ()):
                    vals.append([1. if tuple(r[q] for q in supp) == tuple(b) else 0. for r in rows[k]])
                    cf.append(cs[i][a] * nw[k] / av[i][a] * mats[i, k][2][tuple(a) + tuple(b)])
            if not vals:
                continue
            mean, cov = moments(vals, weights[k], tot[k])
            x, y = lincomb(w, cf, mean, cov, *([denom[k]] if denom else []))
            est, var = est + x, var + y
        return est, var

    def missing(w, m, e, v):
        w.require(not npm.is_abs(e) and bool(e != e) and bool(v != v), '%s returns a value although probabilities of one of the '
                  'POVMs are missing' % m.__name__, w.locate(m))

    incomplete = [i for i, ns in enumerate(nss) if any(r not in avail([1.] * len(others))[i] for r in real.ndindex(*ns))]

    @case('list_lfun_from_values[%s]' % label, 'C22', aspects=(), variants=False)
    def f(w):
        Ls, Lo, mats = setup(w)
        S = state(w, 'B', [2] * L, 'mpdo', bonds=[1] * (L - 1))
        ps, rows = [], []
        for k, o in enumerate(Lo.mpps):
            od = tuple(d for d in others[k] if d > 1)
            ps.append(w.opaque('p%d' % k, od, F8))
            rows.append(list(real.ndindex(*od)))
            o.pmf_as_array = Stub(('state', 'mode', 'eps', 'impl'), {}, lambda b, k=k: ps[k])
        m = type(Ls).lfun_from
        for nw in ([1.] * len(others), [1., 3., .5][:len(others)]):
            av = avail(nw)
            kw = dict(other_weights=real.array(nw)) if nw[-1] != 1. else {}
            cs = coeffs(av)
            e, v = w.call(Ls.lfun_from, Lo, cs, S, 'mpdo', **kw)
            est, var = value(w, mats, cs, av, nw, rows, [[p[r] for r in rs] for p, rs in zip(ps, rows)], [1.] * len(others), None)
            w.same(e, est, 'lfun_from of several POVMs: value', w.locate(m))
            clamp_sum(w, v, var, 'lfun_from of several POVMs: variance', w.locate(m))
            for i in incomplete:
                missing(w, m, *w.call(Ls.lfun_from, Lo, coeffs(av, i), S, 'mpdo', **kw))

    @case('list_est_lfun_from_values[%s]' % label, 'C22', aspects=(), variants=False)
    def f(w):
        Ls, Lo, mats = setup(w)
        n = [5, 3, 4][:len(others)]
        smp = [data(od, n[k], k + 1) for k, od in enumerate(others)]
        rows = [[tuple(int(x) for x in r) for r in q] for q in smp]
        av = avail(n)
        cs = coeffs(av)
        m = type(Ls).est_lfun_from
        e, v = w.call(Ls.est_lfun_from, Lo, cs, smp)
        est, var = value(w, mats, cs, av, n, rows, [[1.] * x for x in n], [float(x) for x in n], [x - 1. for x in n])
        w.same(e, est, 'est_lfun_from of several POVMs: estimate', w.locate(m))
        clamp_sum(w, v, var, 'est_lfun_from of several POVMs: variance', w.locate(m))
        for i in incomplete:
            missing(w, m, *w.call(Ls.est_lfun_from, Lo, coeffs(av, i), smp))


_from_list('first', [[3], [2]], [[3]], {(0, 0): [((0,), (1,)), ((1,), (0,)), ((2,), (2,))], (1, 0): [((0,), (2,))]})
_from_list('second', [[3], [2]], [[3]], {(1, 0): [((0,), (1,)), ((1,), (0,))], (0, 0): [((1,), (2,))]})
_from_list('part', [[3], [2]], [[3], [2]], {(0, 0): [((0,), (1,)), ((2,), (0,))], (1, 1): [((0,), (1,)), ((1,), (0,))],
                                             (1, 0): [((1,), (2,))]})
_from_list('sites', [[2, 1], [1, 2], [2, 2]], [[2, 2], [1, 2]],
           {(0, 0): [((0,), (1,)), ((1,), (0,))], (1, 0): [((1,), (0,))], (1, 1): [((0,), (0,)), ((1,), (1,))],
            (2, 0): [((0, 1), (1, 0))]})


# -- matching elements -----------------------------------------------------------------------------
def _lt(rows_, h, bonds=(1, 1)):
    """Local tensor (left, outcome, row, column, right) from one matrix-valued array per outcome."""
    return npm.stack([npm.arr_of(r) for r in rows_], axis=1) if rows_[0].ndim == 4 else \
        npm.stack([npm.arr_of(r) for r in rows_], axis=0)[None, ..., None]


def _match(label, build):
    @case('match_elems_values[%s]' % label, 'C22', aspects=(), variants=False)
    def f(w):
        EV.assume_nonneg = True
        PV = w.fn('povm.mppovm.MPPovm')
        la, lb, pairs, sd, od = build(w)
        A, B = w.call(PV, la), w.call(PV, lb)
        m = type(A).match_elems
        match, pre = w.call(A.match_elems, B, _generic=True)
        shape = tuple(d for d in sd if d > 1) + tuple(o for s, o in zip(sd, od) if s > 1 and o > 1)
        want = real.zeros(shape, bool)
        pf = real.zeros(shape)
        for a, b, c in pairs:
            want[tuple(a) + tuple(b)] = True
            pf[tuple(a) + tuple(b)] = c
        w.require(tuple(match.shape) == shape and tuple(pre.shape) == shape, 'match_elems: shapes %s, %s instead of %s' % (
            tuple(match.shape), tuple(pre.shape), shape), w.locate(m))
        w.same(match, want.astype(int), 'match_elems: matches', w.locate(m))
        w.same(pre, real.where(want, pf, real.nan), 'match_elems: prefactors', w.locate(m))
        # no element of this pair of lists has several partners: nothing to complain about
        for ex in (('self',), ('other',), ('self', 'other')):
            match2, pre2 = w.call(A.match_elems, B, exclude_dup=ex, _generic=True)
            w.same(match2, want.astype(int), 'match_elems(exclude_dup=%s): matches' % (ex,), w.locate(m))
            w.same(pre2, real.where(want, pf, real.nan), 'match_elems(exclude_dup=%s): prefactors' % (ex,), w.locate(m))


@case('match_elems_duplicates', 'C22', aspects=(), variants=False)
def f(w):
    EV.assume_nonneg = True
    PV = w.fn('povm.mppovm.MPPovm')
    a = [w.opaque('a%d' % i, (2, 2)) for i in range(3)]
    P = w.call(PV, [_lt([a[0], a[1]], 2)])
    Q = w.call(PV, [_lt([a[0], a[1] * 2., a[0] * 3.], 2)])
    for first, second, dup in ((P, Q, 'other'), (Q, P, 'self')):
        w.rejects(first.match_elems, second, exclude_dup=(dup,))
        w.rejects(first.match_elems, second, exclude_dup=('self', 'other'))
        w.call(first.match_elems, second, exclude_dup=('self' if dup == 'other' else 'other',), _generic=True)
        w.call(first.match_elems, second, _generic=True)


def _m_product(w):
    a = [w.opaque('a%d' % i, (2, 2)) for i in range(2)]
    s = [w.opaque('s%d' % i, (2, 2)) for i in range(2)]
    x, y = w.opaque('x', (2, 2)), w.opaque('y', (2, 2))
    la = [_lt(a, 2), _lt(s, 2)]
    lb = [_lt([a[1] * 2., x, a[0] * .5], 2), _lt([s[1] * 4., y], 2)]
    return la, lb, [((1, 1), (0, 0), 1 / 8.), ((0, 1), (2, 0), 1 / 2.)], [2, 2], [3, 2]


def _m_summed(w):
    a = [w.opaque('a%d' % i, (2, 2)) for i in range(2)]
    s = w.opaque('s', (3, 3))
    x, y = w.opaque('x', (2, 2)), w.opaque('y', (3, 3))
    la = [_lt([s], 3), _lt(a, 2)]
    lb = [_lt([s * 2. - y, y], 3), _lt([a[1] * .25, x, a[0] * 3.], 2)]
    return la, lb, [((1,), (0,), 2.), ((0,), (2,), 1 / 6.)], [1, 2], [2, 3]


def _m_entangled(w):
    a = [w.opaque('a%d' % i, (1, 2, 2, 2)) for i in range(2)]
    s = [w.opaque('s%d' % i, (2, 2, 2, 1)) for i in range(2)]
    la = [_lt(a, 2), _lt(s, 2)]
    lb = [_lt([a[1] * 2., a[0] * 5.], 2), _lt(s, 2)]
    pairs = [((i, j), (1 - i, j), 1 / (2. if i == 1 else 5.)) for i in range(2) for j in range(2)]
    return la, lb, pairs, [2, 2], [2, 2]


def _m_gap(w):
    a = [w.opaque('a%d' % i, (2, 2)) for i in range(2)]
    s = [w.opaque('s%d' % i, (2, 2)) for i in range(2)]
    o, p = w.opaque('o', (2, 2)), w.opaque('p', (2, 2))
    la = [_lt(a, 2), _lt([o], 2), _lt(s, 2)]
    lb = [_lt([a[1]], 2), _lt([o * 3. - p, p], 2), _lt([s[1] * 4., s[0]], 2)]
    return la, lb, [((1, 1), (0,), 1 / 12.), ((1, 0), (1,), 1 / 3.)], [2, 1, 2], [1, 2, 2]


def _m_complex(w):
    a = [w.opaque('a%d' % i, (2, 2)) for i in range(2)]
    la = [_lt(a, 2)]
    ac = [Arr(tn.conj(x.val), x.dtype) for x in a]
    lb = [_lt([ac[0], a[1] * 2., a[0]], 2)]
    return la, lb, [((1,), (1,), .5), ((0,), (2,), 1.)], [2], [3]


for _l, _b in (('product', _m_product), ('summed', _m_summed), ('entangled', _m_entangled), ('gap', _m_gap), ('complex', _m_complex)):
    _match(_l, _b)
