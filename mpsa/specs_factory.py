"""Structure promised for randomly generated objects (C24), whatever is drawn: the draws are free symbols."""
import itertools
import numpy as real
from . import evalten, npm
from .cases import case
from .dims import Unsupported
from .specs_rng import caller

F = 'factory.'


def samples(w, r, n=3):
    """Dense values of a result at points of the symbol space, contracted site by site."""
    lts = [npm.ten_of(l) for l in w.lts(r)] if w.is_mpa(r) else None
    done = 0
    for seed in range(evalten.BASE_SEED, evalten.BASE_SEED + 60):
        p = evalten.Point(seed)
        if not p.consistent():
            continue
        try:
            if not evalten._satisfied(p):
                continue
            if lts is None:
                yield p.ten(npm.ten_of(r))
            else:
                t = real.ones((1,), complex)
                for l in lts:
                    t = real.tensordot(t, p.ten(l), (-1, 0))
                yield t[..., 0]
        except Unsupported as e:
            if 'realisable' in str(e):
                continue
            raise
        done += 1
        if done >= n:
            return
    if not done:
        raise Unsupported('no point found')


def matrix(t):
    """Operator with legs (row, column) site by site -> matrix."""
    n = t.ndim // 2
    m = t.transpose(list(range(0, 2 * n, 2)) + list(range(1, 2 * n, 2)))
    d = int(real.prod(m.shape[:n], dtype=int))
    return m.reshape((d, d))


def close(a, b):
    return bool(real.allclose(a, b, atol=1e-7 * max(1., abs(a).max() if real.size(a) else 1.)))


def shape_is(w, r, shape, what, loc):
    got = tuple(tuple(s) for s in r.shape)
    w.require(got == tuple(map(tuple, shape)), '%s: shape %s instead of %s' % (what, got, tuple(shape)), loc)


def _mps(L, d, rank, kw):
    @case('structure:random_mps[%d,%d,%d,%s]' % (L, d, rank, bool(kw)), 'C24', aspects=(), variants=False)
    def f(w):
        fn = w.fn(F + 'random_mps')
        r = w.call(fn, L, d, rank, randstate=caller(), **kw)
        shape_is(w, r, [(d,)] * L, 'random_mps', w.locate(fn))
        for x in samples(w, r):
            w.require(close((abs(x) ** 2).sum(), 1.), 'random_mps: the state is not normalised', w.locate(fn))
            w.require(not close(x, x.real), 'random_mps: the state is real', w.locate(fn))


def _mpo(L, d, rank, herm, norm):
    @case('structure:random_mpo[%d,%d,%d,%s,%s]' % (L, d, rank, herm, norm), 'C24', aspects=(), variants=False)
    def f(w):
        fn = w.fn(F + 'random_mpo')
        kw = {}
        if herm is not None:
            kw['hermitian'] = herm
        if norm is not None:
            kw['normalized'] = norm
        r = w.call(fn, L, d, rank, randstate=caller(), **kw)
        shape_is(w, r, [(d, d)] * L, 'random_mpo', w.locate(fn))
        for x in samples(w, r):
            m = matrix(x)
            w.require(close(m, m.conj().T) == bool(herm), 'random_mpo: %s although hermitian=%s' % (
                'not hermitian' if herm else 'hermitian', bool(herm)), w.locate(fn))
            unit = norm is None or norm
            w.require(close((abs(x) ** 2).sum(), 1.) == unit, 'random_mpo: %s although normalized=%s' % (
                'not normalised' if unit else 'normalised', unit), w.locate(fn))


def _mpdo(L, d, rank):
    @case('structure:random_mpdo[%d,%d,%d]' % (L, d, rank), 'C24', aspects=(), variants=False)
    def f(w):
        fn = w.fn(F + 'random_mpdo')
        r = w.call(fn, L, d, rank, randstate=caller())
        shape_is(w, r, [(d, d)] * L, 'random_mpdo', w.locate(fn))
        for x in samples(w, r):
            m = matrix(x)
            w.require(close(m, m.conj().T), 'random_mpdo: not hermitian', w.locate(fn))
            w.require(close(real.trace(m), 1.), 'random_mpdo: trace is not one', w.locate(fn))
            w.require(bool(real.linalg.eigvalsh((m + m.conj().T) / 2).min() > -1e-7), 'random_mpdo: not positive', w.locate(fn))


def basis(d):
    """Operator basis of one site, the identity first, the others traceless."""
    out = [real.eye(d)]
    for i in range(d):
        for j in range(d):
            if (i, j) != (d - 1, d - 1):
                e = real.zeros((d, d))
                e[i, j] = 1
                out.append(e - real.eye(d) * (1. / d if i == j else 0))
    return out


def supports(x, d):
    """Which sets of sites carry traceless parts of the operator."""
    n = x.ndim // 2
    dual = real.linalg.inv(real.array([b.ravel() for b in basis(d)]).T)
    t = x.reshape([d * d] * n)
    for k in range(n):
        t = real.moveaxis(real.tensordot(dual, t, (1, k)), 0, k)
    big = abs(t).max()
    return {tuple(k for k, i in enumerate(pos) if i) for pos in real.ndindex(*t.shape) if abs(t[pos]) > 1e-7 * big}


def _ham(L, kw):
    d, il = kw.get('ldim', 2), kw.get('intlen', 2)

    @case('structure:random_local_ham[%d,%s]' % (L, sorted(kw.items())), 'C24', aspects=(), variants=False)
    def f(w):
        fn = w.fn(F + 'random_local_ham')
        r = w.call(fn, L, randstate=caller(), **kw)
        shape_is(w, r, [(d, d)] * L, 'random_local_ham', w.locate(fn))
        for x in samples(w, r, 2):
            m = matrix(x)
            w.require(close(m, m.conj().T), 'random_local_ham: not hermitian', w.locate(fn))
            got = supports(x, d)
            want = {s for k in range(L - il + 1) for n in range(il + 1) for s in itertools.combinations(range(k, k + il), n)}
            w.require(got == want, 'random_local_ham: terms act on the sites %s' % sorted(got ^ want), w.locate(fn))


def _mpa(L, shape, kw):
    @case('structure:random_mpa[%d,%s,%s]' % (L, shape, sorted(kw.items(), key=str)), 'C24', aspects=(), variants=False)
    def f(w):
        fn = w.fn(F + 'random_mpa')
        r = w.call(fn, L, shape, 2, randstate=caller(), **kw)
        one = (shape,) if isinstance(shape, int) else tuple(shape)
        shape_is(w, r, [one] * L, 'random_mpa', w.locate(fn))
        cplx = kw.get('dtype', real.float64) is real.complex128
        for x in samples(w, r):
            w.require(close(x, x.real) != cplx, 'random_mpa: %s entries' % ('real' if cplx else 'complex'), w.locate(fn))
            w.require(close((abs(x) ** 2).sum(), 1.) == bool(kw.get('normalized')), 'random_mpa: norm', w.locate(fn))


for _L in (1, 2, 3):
    for _d, _r, _kw in ((2, 2, {}), (3, 4, {}), (2, 5, dict(force_rank=True))):
        _mps(_L, _d, _r, _kw)
    for _h, _n in itertools.product((None, False, True), repeat=2):
        _mpo(_L, 2, 2, _h, _n)
    for _d, _r in ((2, 1), (2, 2), (3, 2), (2, 3)):
        if not (_L == 1 and _r > 1 or _L == 3 and (_r > 2 or _d > 2)):
            _mpdo(_L, _d, _r)
    for _s in (2, 3, (2, 3)):
        for _kw in ({}, dict(normalized=True), dict(dtype=real.complex128), dict(dtype=real.complex128, normalized=True)):
            _mpa(_L, _s, _kw)
for _L, _kw in ((2, {}), (3, {}), (3, dict(ldim=3)), (3, dict(intlen=3)), (3, dict(intlen=1)), (4, {}), (4, dict(intlen=3))):
    _ham(_L, _kw)
