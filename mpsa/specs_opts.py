"""Options (C15): every documented option reaches the computation it controls.

Three kinds of obligations: the documented effect of the option, a tolerance given as a symbol occurs in the checks made
(and the default one does not), and an option handed to a delegate arrives there."""
import numpy as real
from . import tn, npm, evalten
from .npm import Arr, EV
from .cases import case
from .specs_core import phys, ein, flat
from .specs_povm import povm, state
from .specs_rng import caller
from .world import F8, C16, Violation


def leaves(t):
    return {lab[1] for c, nodes, o in t.terms for lab, legs in nodes if lab[0] == 'T'}


def consts(t):
    return [c for c, nodes, o in t.terms if not any(lab[0] == 'T' for lab, legs in nodes)]


DEFAULT_EPS = 1e-10


def eps_used(w, fn, what):
    """The symbolic tolerance occurs in a check, the default tolerance in none."""
    used = any('eps' in leaves(A) | leaves(B) for op, A, B in EV.conds)
    w.require(used, '%s: the tolerance eps given by the caller is not used' % what, w.locate(fn))
    bad = [1 for op, A, B in EV.conds if any(abs(abs(c) - DEFAULT_EPS) < 1e-15 for c in consts(A) + consts(B))]
    w.require(not bad, '%s: checks use the default tolerance although the caller gave eps' % what, w.locate(fn))


def ten(x):
    return x if isinstance(x, tn.Ten) else npm.ten_of(x)


def differs(w, a, b, what, fn):
    w.obl += 1
    x, y = ten(a), ten(b)
    if tuple(x.shape) == tuple(y.shape) and not evalten._differ(x, y, 3, False):
        raise Violation(what, w.locate(fn))


class Stub(object):
    """Stands in for a method; records the values its parameters receive."""

    def __init__(self, names, defaults, ret):
        self.names, self.defaults, self.ret = names, defaults, ret
        self.calls = []

    def __call__(self, *args, **kw):
        b = dict(self.defaults)
        b.update(zip(self.names, args))
        b.update(kw)
        self.calls.append(b)
        return self.ret(b)


def arrived(w, stub, fn, what, **want):
    for c in stub.calls:
        for k, v in want.items():
            got = c.get(k)
            ok = got is v
            if not ok and isinstance(v, (str, int, float, bool, tuple)):
                ok = type(got) is type(v) and got == v
            if not ok and npm.is_abs(v) and npm.is_abs(got):
                ok = evalten.same(npm.ten_of(got), npm.ten_of(v))
            w.require(ok, '%s: option %s=%r is not handed on (the delegate receives %r)' % (what, k, v, got), w.locate(fn))


# -- compression --------------------------------------------------------------------------------
SPECTRA = {4: (8., 4., 2., 1.), 3: (8., 3., 1.), 2: (9., 1.), 1: (2.,)}


def allowed(k, relerr, rank):
    s = SPECTRA[k]
    r = next(r for r in range(1, k + 1) if sum(s[r:]) <= relerr * sum(s) + 1e-12)
    return min(r, rank if rank is not None else k)


def _relerr(L, direction, relerr, rank, how, canon=True):
    @case('relerr_rank[%d,%s,%s,%s,%s,%s]' % (L, direction, relerr, rank, how, canon), 'C15', aspects=(), variants=False)
    def f(w):
        d, b = (4, [4] * (L - 1))
        A = w.mpa('A', [(d,)] * L, bonds=b)
        m = getattr(type(A), how)
        EV.sv_hook = lambda k: SPECTRA[k]
        kw = dict(relerr=relerr)
        if rank is not None:
            kw['rank'] = rank
        if direction:
            kw['direction'] = direction
        if not canon:
            kw['canonicalize'] = False
        if how == 'compress':
            w.call(A.compress, 'svd', **kw)
            r = A
        else:
            r, ov = w.call(A.compression, 'svd', **kw)
        # sizes of the matrices in the order of the sweep; from the left: (r_prev d) x b
        got = list(r.ranks)
        seq = got if (direction or 'right') == 'right' else got[::-1]
        prev = 1
        want = []
        for i in range(L - 1):
            want.append(allowed(min(prev * d, 4), relerr, rank))
            prev = want[-1]
        w.require(seq == want, '%s(%s): ranks %s (in sweep order), the documented rule gives %s' % (
            how, ', '.join('%s=%r' % kv for kv in sorted(kw.items())), seq, want), w.locate(m))


for _L in (2, 3):
    for _d in ('left', 'right'):
        for _e, _r in ((0., None), (.1, None), (.25, None), (.5, None), (1., None), (.1, 2), (.25, 3), (.25, 1), (0., 3)):
            for _h in ('compress', 'compression'):
                if _L == 2 or _h == 'compression':
                    _relerr(_L, _d, _e, _r, _h)
        _relerr(_L, _d, .25, None, 'compression', False)


def _svdfunc(L, direction, rank, how):
    @case('svdfunc[%d,%s,%d,%s]' % (L, direction, rank, how), 'C15', aspects=(), variants=False)
    def f(w):
        A = w.mpa('A', [(3,)] * L, bonds=[3] * (L - 1))
        m = getattr(type(A), how)
        seen = []

        def svdfunc(mat, k):
            mat = npm.arr_of(mat)
            r = min(int(k), 2)
            n = len(seen)
            seen.append(k)
            return (w.opaque('u%d' % n, (mat.shape[0], r)), w.opaque('s%d' % n, (r,), F8),
                    w.opaque('v%d' % n, (r, mat.shape[1])))
        kw = dict(rank=rank, direction=direction, svdfunc=svdfunc)
        if how == 'compress':
            w.call(A.compress, 'svd', **kw)
            r = A
        else:
            r, ov = w.call(A.compression, 'svd', **kw)
        w.require(len(seen) == L - 1, '%s(svdfunc): the given function is called %d times for %d bonds' % (
            how, len(seen), L - 1), w.locate(m))
        w.require(all(k == rank for k in seen), '%s(svdfunc): asked for %s triplets, rank=%d' % (how, seen, rank), w.locate(m))
        w.require(list(r.ranks) == [min(rank, 2)] * (L - 1), '%s(svdfunc): ranks %s of the result do not follow the given '
                  'function' % (how, list(r.ranks)), w.locate(m))
        want = {'u%d' % i for i in range(L - 1)} | {'v%d' % i for i in range(L - 1)}
        last = 'u0' if direction == 'left' else 'v0'
        got = set()
        for l in w.lts(r):
            got |= leaves(npm.ten_of(l))
        need = 'v0' if direction == 'left' else 'u0'
        w.require(need in got, '%s(svdfunc): the result is not made of the factors of the given function' % how, w.locate(m))


for _L in (2, 3):
    for _d in ('left', 'right'):
        for _r in (1, 3):
            for _h in ('compress', 'compression'):
                _svdfunc(_L, _d, _r, _h)


@case('special_sumup_svdfunc', 'C15', aspects=(), variants=False)
def f(w):
    fn = w.fn('special.sumup')
    ms = [w.mpa('ABC'[i], [(3,)] * 3, bonds=[1, 1]) for i in range(3)]
    seen = []

    def svdfunc(mat, k):
        mat = npm.arr_of(mat) if not hasattr(mat, 'a') else npm.arr_of(mat.a)
        n = len(seen)
        seen.append(k)
        return (w.opaque('u%d' % n, (mat.shape[0], 2)), w.opaque('s%d' % n, (2,), F8), w.opaque('v%d' % n, (2, mat.shape[1])))
    r = w.call(fn, ms, 2, svdfunc=svdfunc)
    w.require(len(seen) == 2 and all(k == 2 for k in seen), 'special.sumup(svdfunc): calls %s' % (seen,), w.locate(fn))


def _direction(L, direction, cf):
    @case('direction[%d,%s,%s]' % (L, direction, cf), 'C15', aspects=(), variants=False)
    def f(w):
        A = w.mpa('A', [(3,)] * L, bonds=[2] * (L - 1), cform=cf)
        m = type(A).compression
        r, ov = w.call(A.compression, 'svd', rank=2, direction=direction)
        if direction == 'right':
            w.require(r.canonical_form == (L - 1, L), 'compression(direction=right): canonical form %s' % (r.canonical_form,),
                      w.locate(m))
        else:
            w.require(r.canonical_form == (0, 1), 'compression(direction=left): canonical form %s' % (r.canonical_form,),
                      w.locate(m))


for _L in (2, 3):
    for _d in ('left', 'right'):
        for _cf in ((0, _L), (_L - 1, _L), (0, 1)):
            _direction(_L, _d, _cf)


@case('canonicalize_option', 'C15', aspects=(), variants=False)
def f(w):
    for direction in ('left', 'right'):
        A = w.mpa('A', [(3,)] * 3, bonds=[3, 3])
        m = type(A).compression
        a, _ = w.call(A.compression, 'svd', rank=1, direction=direction)
        b, _ = w.call(A.compression, 'svd', rank=1, direction=direction, canonicalize=False)
        differs(w, w.dense(a), w.dense(b), 'compression(canonicalize=False) canonicalises all the same', m)


def _sweeps(how, vs):
    @case('var_options[%s,%d]' % (how, vs), 'C15', aspects=(), variants=False)
    def f(w):
        A = w.mpa('A', [(2,)] * 3, bonds=[2, 2])
        S = w.mpa('S', [(2,)] * 3, bonds=[1, 1])
        m = getattr(type(A), how)

        def run(**kw):
            B = w.call(A.copy)
            r = w.call(getattr(B, how), 'var', startmpa=S, **kw)
            return w.dense(B if how == 'compress' else r[0])
        one = run(num_sweeps=1, var_sites=vs)
        two = run(num_sweeps=2, var_sites=vs)
        differs(w, one, two, '%s(var): num_sweeps has no effect' % how, m)
        if vs == 1:
            other = run(num_sweeps=1, var_sites=2)
            differs(w, one, other, '%s(var): var_sites has no effect' % how, m)


for _h in ('compress', 'compression'):
    for _vs in (1, 2):
        _sweeps(_h, _vs)


def _varrank(L, rank, how):
    @case('var_rank[%d,%d,%s]' % (L, rank, how), 'C15', aspects=(), variants=False)
    def f(w):
        A = w.mpa('A', [(2,)] * L, bonds=[2] * (L - 1))
        m = getattr(type(A), how)
        B = w.call(A.copy)
        r = w.call(getattr(B, how), 'var', num_sweeps=1, var_sites=1, rank=rank, randstate=caller())
        r = B if how == 'compress' else r[0]
        w.require(list(r.ranks) == [rank] * (L - 1), '%s(var, rank=%d): ranks %s' % (how, rank, list(r.ranks)), w.locate(m))


for _L in (2, 3):
    for _r in (1, 2):
        for _h in ('compress', 'compression'):
            if (_L, _r) != (3, 1):
                _varrank(_L, _r, _h)


def _varbound(dims, bonds, rank, how, vs, start):
    @case('var_bound[%s,%s,%d,%s,%d,%s]' % (dims, bonds, rank, how, vs, start), 'C10', aspects=(), variants=False)
    def f(w):
        A = w.mpa('A', [(d,) for d in dims], bonds=bonds)
        m = getattr(type(A), how)
        B = w.call(A.copy)
        if start:
            S = w.mpa('S', [(d,) for d in dims], bonds=[min(rank, b) for b in bonds])
            kw = dict(startmpa=S)
        else:
            kw = dict(rank=rank, randstate=caller())
        r = w.call(getattr(B, how), 'var', num_sweeps=1, var_sites=vs, **kw)
        r = B if how == 'compress' else r[0]
        w.require(all(x <= rank for x in r.ranks), '%s(var, rank=%d) of an array with ranks %s: ranks %s' % (
            how, rank, bonds, list(r.ranks)), w.locate(m))
        w.require(tuple(r.shape) == tuple((d,) for d in dims), '%s(var): shape %s' % (how, r.shape), w.locate(m))


for _h in ('compress', 'compression'):
    for _dm, _bd, _rk in (((2, 3, 2), [2, 1], 1), ((2, 3, 2), [1, 2], 1), ((3, 3, 2), [3, 2], 2), ((2, 3, 3), [2, 3], 2),
                          ((3, 3, 2), [3, 1], 2), ((2, 3, 3), [1, 3], 2)):
        for _st in (False, True):
            if _rk > 1 or _st:
                _varbound(_dm, _bd, _rk, _h, 1 if _st else 2, _st)


# -- eigenvector search ---------------------------------------------------------------------------
def _eigopts(which, vs, rank, sweeps):
    @case('%s_options[%d,%s,%d]' % (which, vs, rank, sweeps), 'C15', aspects=(), variants=False)
    def f(w):
        L, d = 4, 2
        fn = w.fn('linalg.' + which)
        H = w.mpa('A', [(d, d)] * L, bonds=[2] * (L - 1))
        seen = []

        def eigs(op, v0=None, **kw):
            seen.append(npm.arr_of(v0))
            n = len(seen)
            return w.opaque('val%d' % n, (1,), F8), w.opaque('vec%d' % n, tuple(npm.arr_of(v0).shape) + (1,))
        kw = dict(startvec_rank=rank, randstate=caller())
        val, r = w.call(fn, H if which == 'eig' else [H], sweeps, var_sites=vs, eigs=eigs, **kw)
        where = w.locate(fn)
        steps = sum(1 for n in range(sweeps) for p in range(L - vs + 1) if not (p == 0 and n > 0)) + sweeps * (L - vs)
        w.require(len(seen) == steps, '%s(num_sweeps=%d, var_sites=%d): the given solver is called %d times instead of %d' % (
            which, sweeps, vs, len(seen), steps), where)
        n0 = d ** vs * min(rank, d ** min(vs, L - vs))
        w.require(seen[0].shape[0] == n0, '%s(startvec_rank=%d, var_sites=%d): first local problem has dimension %s '
                  'instead of %d' % (which, rank, vs, seen[0].shape[0], n0), where)
        w.require(all(x <= rank for x in r.ranks), '%s(startvec_rank=%d): ranks %s' % (which, rank, list(r.ranks)), where)


def _eigshape(which, dims, vs, rank):
    @case('%s_random_start[%s,%d,%d]' % (which, ''.join(map(str, dims)), vs, rank), 'C11', aspects=(), variants=False)
    def f(w):
        L = len(dims)
        fn = w.fn('linalg.' + which)
        H = w.mpa('A', [(d, d) for d in dims], bonds=[2] * (L - 1))
        P = w.mpa('B', [(d,) for d in dims], bonds=[2] * (L - 1))
        pos = [p for p in range(L - vs + 1)] + list(reversed(range(L - vs)))
        for arg in ([H] if which == 'eig' else [[H], [H, P], [P, H]]):
            seen = []

            def eigs(op, v0=None, **kw):
                seen.append((npm.arr_of(op).shape, npm.arr_of(v0).shape))
                n = len(seen)
                return w.opaque('val%d' % n, (1,), F8), w.opaque('vec%d' % n, tuple(npm.arr_of(v0).shape) + (1,))
            val, r = w.call(fn, arg, 1, var_sites=vs, eigs=eigs, startvec_rank=rank, randstate=caller())
            where = w.locate(fn)
            w.require(tuple(r.shape) == tuple((d,) for d in dims), '%s(startvec_rank=%d): the result has shape %s on sites of '
                      'dimensions %s' % (which, rank, r.shape, dims), where)
            w.require(len(seen) == len(pos), '%s: %d local problems instead of %d' % (which, len(seen), len(pos)), where)
            for (o, v), p in zip(seen, pos):
                w.require(v[0] % int(real.prod(dims[p:p + vs])) == 0 and tuple(o) == (v[0], v[0]), '%s(startvec_rank=%d): local '
                          'problem on sites %d..%d of dimensions %s has dimension %s' % (which, rank, p, p + vs - 1, dims, v[0]), where)
            w.require(all(x <= rank for x in r.ranks), '%s(startvec_rank=%d): ranks %s' % (which, rank, list(r.ranks)), where)


for _w in ('eig', 'eig_sum'):
    for _ds in ((2, 3, 2), (3, 2, 2), (2, 3), (2, 2, 3), (2, 3, 3, 2)):
        for _vs in range(1, min(3, len(_ds))):
            _eigshape(_w, _ds, _vs, 2)
    _eigshape(_w, (3, 2, 4), 1, 3)


for _w in ('eig', 'eig_sum'):
    for _vs in (1, 2, 3):
        for _r in (2, 3):
            _eigopts(_w, _vs, _r, 1)
    _eigopts(_w, 1, 2, 2)
    _eigopts(_w, 2, 2, 3)


def _eigstart(which, vs):
    @case('%s_startvec[%d]' % (which, vs), 'C15', aspects=(), variants=False)
    def f(w):
        L, d = 3, 2
        fn = w.fn('linalg.' + which)
        H = w.mpa('A', [(d, d)] * L, bonds=[2] * (L - 1))
        S = w.mpa('S', [(d,)] * L, bonds=[2, 2])
        seen = []

        def eigs(op, v0=None, **kw):
            seen.append(npm.arr_of(v0))
            n = len(seen)
            return w.opaque('val%d' % n, (1,), F8), w.opaque('vec%d' % n, tuple(npm.arr_of(v0).shape) + (1,))
        val, r = w.call(fn, H if which == 'eig' else [H], 1, var_sites=vs, startvec=S, eigs=eigs)
        nS = (abs(w.D(S)) ** 2).sum()
        w.same((abs(seen[0]) ** 2).sum(), nS, '%s(startvec): the search does not start from the given vector' % which,
               w.locate(fn))
        val, r = w.call(fn, H if which == 'eig' else [H], 1, var_sites=vs, startvec=S, eigs=eigs, startvec_rank=3)
        w.require(not EV.draws, '%s: random start vector although startvec is given' % which, w.locate(fn))


for _w in ('eig', 'eig_sum'):
    for _vs in (1, 2):
        _eigstart(_w, _vs)


@case('eig_default_solver', 'C15', aspects=(), variants=False)
def f(w):
    for which in ('eig', 'eig_sum'):
        fn = w.fn('linalg.' + which)
        H = w.mpa('A', [(2, 2)] * 3, bonds=[2, 2])
        EV.eigs[:] = []
        w.call(fn, H if which == 'eig' else [H], 1, var_sites=1, startvec_rank=2, randstate=caller())
        w.require(all(e[2]['k'] == 1 for e in EV.eigs) and EV.eigs, '%s: default solver is not asked for one eigenpair' % which,
                  w.locate(fn))
        w.require(all(e[1] is not None for e in EV.eigs), '%s: the current local state is not handed to the solver as v0' % which,
                  w.locate(fn))


# -- random arrays --------------------------------------------------------------------------------
def _rand(cid, path, args, kw, check):
    @case(cid, 'C15', aspects=(), variants=False)
    def f(w):
        fn = w.fn(path)
        r = w.call(fn, *args, randstate=caller(), **kw)
        check(w, r, fn)


def unit_norm(w, r, fn):
    t = ten(w.dense(r) if w.is_mpa(r) else r)
    ax = list(range(t.ndim))
    w.same(Arr(tn.tensordot(tn.conj(t), t, ax, ax), real.dtype(complex)), npm.arr_of(1.0),
           'normalized result', w.locate(fn))


def hermitian(legs_of):
    def check(w, r, fn):
        t = ten(w.dense(r) if w.is_mpa(r) else r)
        perm = legs_of(t.ndim)
        w.same(t, tn.conj(tn.transpose(t, perm)), 'hermitian result', w.locate(fn))
    return check


def both(*cs):
    def check(w, r, fn):
        for c in cs:
            c(w, r, fn)
    return check


def swap_pairs(n):
    return [i ^ 1 for i in range(n)]


def forced(rank):
    def check(w, r, fn):
        w.require(list(r.ranks) == [rank] * (len(r) - 1), 'force_rank=True gives ranks %s instead of %d' % (
            list(r.ranks), rank), w.locate(fn))
    return check


def kind(k):
    def check(w, r, fn):
        w.require(all(npm.arr_of(l).dtype.kind == k for l in w.lts(r)), 'dtype option: local tensors have dtypes %s' % (
            [str(l.dtype) for l in w.lts(r)],), w.locate(fn))
    return check


for _L in (1, 2, 3):
    _rand('random_mpa_normalized[%d]' % _L, 'factory.random_mpa', (_L, 2, 2), dict(normalized=True), unit_norm)
    _rand('random_mpa_normalized_forced[%d]' % _L, 'factory.random_mpa', (_L, 2, 5), dict(normalized=True, force_rank=True),
          both(unit_norm, forced(5)))
    _rand('random_mpa_dtype_c[%d]' % _L, 'factory.random_mpa', (_L, 2, 2), dict(dtype=real.complex128), kind('c'))
    _rand('random_mpa_dtype_f[%d]' % _L, 'factory.random_mpa', (_L, 2, 2), dict(dtype=real.float64), kind('f'))
    _rand('random_mpo_hermitian[%d]' % _L, 'factory.random_mpo', (_L, 2, 2), dict(hermitian=True), hermitian(swap_pairs))
    _rand('random_mpo_normalized[%d]' % _L, 'factory.random_mpo', (_L, 2, 2), dict(normalized=True), unit_norm)
    if _L < 3:
        _rand('random_mpo_both[%d]' % _L, 'factory.random_mpo', (_L, 2, 2), dict(hermitian=True, normalized=True),
          both(unit_norm, hermitian(swap_pairs)))
    _rand('random_mpo_forced[%d]' % _L, 'factory.random_mpo', (_L, 2, 7), dict(force_rank=True), forced(7))
    _rand('random_mps_forced[%d]' % _L, 'factory.random_mps', (_L, 2, 5), dict(force_rank=True), both(unit_norm, forced(5)))


# -- tolerances -------------------------------------------------------------------------------------
def _eps(cid, run):
    @case(cid, 'C15', aspects=(), variants=False)
    def f(w):
        EV.conds = []
        EV.assume_nonneg = True
        fn, what = run(w, w.scalar('eps', F8))
        eps_used(w, fn, what)


def ms(w, mode, outd=(2, 3), name='A'):
    L = len(outd)
    return (povm(w, name, outd, [2] * L, [2] * (L - 1)), state(w, 'B', [2] * L, mode, bonds=[2] * (L - 1)))


for _mode in ('mps', 'mpdo', 'pmps'):
    for _impl in ('auto', 'default') + (('pmps-symm', 'pmps-ltr') if _mode == 'pmps' else ()):
        for _outd in ((2, 3), (3,)):
            def run(w, eps, mode=_mode, impl=_impl, outd=_outd):
                M, S = ms(w, mode, outd)
                w.call(M.pmf_as_array, S, mode, eps, impl)
                return type(M).pmf_as_array, 'pmf_as_array(mode=%s, impl=%s)' % (mode, impl)
            _eps('eps:pmf_as_array[%s,%s,%d]' % (_mode, _impl, len(_outd)), run)

    def run(w, eps, mode=_mode):
        M, S = ms(w, mode)
        w.call(M.pmfs_as_array, [S, S], mode, eps=eps)
        return type(M).pmfs_as_array, 'pmfs_as_array'
    _eps('eps:pmfs_as_array[%s]' % _mode, run)

    def run(w, eps, mode=_mode):
        M, S = ms(w, mode)
        w.call(M.pmfs_as_array, [S, S], mode, True, eps)
        return type(M).pmfs_as_array, 'pmfs_as_array(asarray=True)'
    _eps('eps:pmfs_as_array_asarray[%s]' % _mode, run)

    def run(w, eps, mode=_mode):
        M = povm(w, 'A', [2, 2], [2, 2], [2])
        S = state(w, 'B', [2] * 3, mode, bonds=[2, 2])
        w.call(M.block_pmfs_as_array, S, mode, eps=eps)
        return type(M).block_pmfs_as_array, 'block_pmfs_as_array'
    _eps('eps:block_pmfs_as_array[%s]' % _mode, run)

    def run(w, eps, mode=_mode):
        M, S = ms(w, mode)
        L = w.call(w.fn('povm.mppovm.MPPovmList'), [M, M])
        w.call(L.pmf_as_array, S, mode, eps)
        return type(L).pmf_as_array, 'MPPovmList.pmf_as_array'
    _eps('eps:list_pmf_as_array[%s]' % _mode, run)

    def run(w, eps, mode=_mode):
        M, S = ms(w, mode)
        L = w.call(w.fn('povm.mppovm.MPPovmList'), [M, M])
        w.call(L.pmfs_as_array, [S, S], mode, eps=eps)
        return type(L).pmfs_as_array, 'MPPovmList.pmfs_as_array'
    _eps('eps:list_pmfs_as_array[%s]' % _mode, run)

    def run(w, eps, mode=_mode):
        M = povm(w, 'A', [2, 2], [2, 2], [2])
        S = state(w, 'B', [2] * 3, mode, bonds=[2, 2])
        L = w.call(w.fn('povm.mppovm.MPPovmList'), [M, M])
        w.call(L.block_pmfs_as_array, S, mode, eps=eps)
        return type(L).block_pmfs_as_array, 'MPPovmList.block_pmfs_as_array'
    _eps('eps:list_block_pmfs_as_array[%s]' % _mode, run)

    for _method in ('direct', 'cond'):
        for _lst in (False, True):
            def run(w, eps, mode=_mode, method=_method, lst=_lst):
                M, S = ms(w, mode)
                o = w.call(w.fn('povm.mppovm.MPPovmList'), [M, M]) if lst else M
                rs = caller()
                rs.choice_hook = lambda a, size, replace, p: 1 if size is None else real.array([1] * int(size))
                w.call(o.sample, rs, S, 1, method, mode=mode, eps=eps)
                return type(o).sample, 'sample(method=%s)' % method
            _eps('eps:sample[%s,%s,%s]' % (_mode, _method, _lst), run)

    for _lst in (False, True):
        for _funs in (False, True):
            def run(w, eps, mode=_mode, lst=_lst, funs=_funs):
                M, S = ms(w, mode)
                n = 2 if funs else 6
                co = w.opaque('co', (n,), F8)
                fs = [lambda o, i=i: w.opaque('f%d' % i, (6,), F8) for i in range(2)] if funs else None
                if lst:
                    o = w.call(w.fn('povm.mppovm.MPPovmList'), [M, M])
                    w.call(o.lfun, [co, co], [fs, fs] if funs else None, S, mode, eps)
                else:
                    o = M
                    w.call(o.lfun, co, fs, S, mode, eps)
                return type(o).lfun, 'lfun'
            _eps('eps:lfun[%s,%s,%s]' % (_mode, _lst, _funs), run)


SAMPLES = real.array([[0, 1], [1, 2], [1, 1], [0, 0]], dtype=real.uint8)

for _lst in (False, True):
    for _funs in (False, True):
        def run(w, eps, lst=_lst, funs=_funs):
            M, S = ms(w, 'mpdo')
            n = 2 if funs else 6
            co = w.opaque('co', (n,), F8)
            fs = [lambda o, i=i: w.opaque('f%d' % i, (len(SAMPLES),), F8) for i in range(2)] if funs else None
            if lst:
                o = w.call(w.fn('povm.mppovm.MPPovmList'), [M, M])
                w.call(o.est_lfun, [co, co], [fs, fs] if funs else None, [SAMPLES, SAMPLES], eps=eps)
            else:
                o = M
                w.call(o.est_lfun, co, fs, SAMPLES, eps=eps)
            return type(o).est_lfun, 'est_lfun'
        _eps('eps:est_lfun[%s,%s]' % (_lst, _funs), run)


def run(w, eps):
    fn = w.fn('utils.pmf.project_pmf')
    w.call(fn, w.opaque('p', (3,), C16), eps, eps)
    return fn, 'project_pmf'


_eps('eps:project_pmf', run)


def run(w, eps):
    fn = w.fn('utils.pmf.project_nonneg')
    w.call(fn, w.opaque('p', (3,), C16), eps, eps)
    return fn, 'project_nonneg'


_eps('eps:project_nonneg', run)


def run(w, eps):
    M = povm(w, 'A', [2, 3], [2, 2], [2])
    N = povm(w, 'C', [3, 2], [2, 2], [2])
    w.call(M.match_elems, N, eps=eps)
    return type(M).match_elems, 'match_elems'


_eps('eps:match_elems', run)


@case('project_pmf_options', 'C15', aspects=(), variants=False)
def f(w):
    """Each of the three thresholds is used for its own purpose."""
    for name in ('project_nonneg', 'project_pmf'):
        fn = w.fn('utils.pmf.' + name)
        EV.conds = []
        EV.assume_nonneg = False
        i, r, t = w.scalar('ieps', F8), w.scalar('reps', F8), w.scalar('trunc', F8)
        w.call(fn, w.opaque('p', (3,), C16), i, r, t)
        for s in ('ieps', 'reps', 'trunc'):
            w.require(any(s in leaves(A) | leaves(B) for op, A, B in EV.conds), '%s: option %s has no effect' % (
                name, {'ieps': 'imag_eps', 'reps': 'real_eps', 'trunc': 'real_trunc'}[s]), w.locate(fn))


# -- estimators: what the delegates receive -------------------------------------------------------------
ML = 'povm.mppovm.MPPovmList'


@case('handed_on:est_pmf_from', 'C15', aspects=(), variants=False)
def f(w):
    M, N = povm(w, 'A', [2, 2], [2, 2], [2]), povm(w, 'C', [2, 2], [2, 2], [2])
    eps = w.scalar('eps', F8)
    L, K = w.call(w.fn(ML), [M, M]), w.call(w.fn(ML), [N, N])
    st = Stub(('other', 'samples', 'eps'), dict(eps=DEFAULT_EPS), lambda b: (w.opaque('p', (2, 2), F8), 3))
    for m in L.mpps:
        m.est_pmf_from_mpps = st
    w.call(L.est_pmf_from, K, [SAMPLES, SAMPLES], eps)
    arrived(w, st, type(L).est_pmf_from, 'MPPovmList.est_pmf_from', eps=eps, other=K)
    st = Stub(('other', 'samples', 'eps'), dict(eps=DEFAULT_EPS), lambda b: (real.full((2, 2), .25), 3))
    M2 = povm(w, 'A', [2, 2], [2, 2], [2])
    M2.est_pmf_from = st
    w.call(M2.est_pmf_from_mpps, K, [SAMPLES, SAMPLES], eps)
    arrived(w, st, type(M2).est_pmf_from_mpps, 'est_pmf_from_mpps', eps=eps)
    match = real.zeros((2, 2, 2, 2), bool)
    pre = real.full((2, 2, 2, 2), real.nan)
    for i in range(2):
        for j in range(2):
            match[i, j, i, j], pre[i, j, i, j] = True, 1.
    st = Stub(('other', 'exclude_dup', 'eps'), dict(eps=DEFAULT_EPS, exclude_dup=()), lambda b: (match, pre))
    M3 = povm(w, 'A', [2, 2], [2, 2], [2])
    M3.match_elems = st
    EV.conds = []
    w.call(M3.est_pmf_from, N, SAMPLES % 2, eps)
    arrived(w, st, type(M3).est_pmf_from, 'est_pmf_from', eps=eps)
    eps_used(w, type(M3).est_pmf_from, 'est_pmf_from')


@case('handed_on:est_lfun_from', 'C15', aspects=(), variants=False)
def f(w):
    EV.assume_nonneg = True
    eps = w.scalar('eps', F8)
    match = real.zeros((2, 2, 2, 2), bool)
    pre = real.full((2, 2, 2, 2), real.nan)
    for i in range(2):
        for j in range(2):
            match[i, j, i, j], pre[i, j, i, j] = True, 1.
    for which in ('est_lfun_from', 'lfun_from'):
        M, N = povm(w, 'A', [2, 2], [2, 2], [2]), povm(w, 'C', [2, 2], [2, 2], [2])
        S = state(w, 'B', [2, 2], 'mpdo', bonds=[2])
        L, K = w.call(w.fn(ML), [M]), w.call(w.fn(ML), [N])
        st = Stub(('other', 'exclude_dup', 'eps'), dict(eps=DEFAULT_EPS, exclude_dup=()), lambda b: (match, pre))
        L.mpps[0].match_elems = st
        EV.conds = []
        co = [real.array([[1., 2.], [3., 4.]])]
        m = getattr(type(L), which)
        if which == 'lfun_from':
            s2 = Stub(('state', 'mode', 'eps', 'impl'), dict(eps=DEFAULT_EPS, mode='auto', impl='auto'),
                      lambda b: w.opaque('p', (2, 2), F8))
            K.mpps[0].pmf_as_array = s2
            w.call(L.lfun_from, K, co, S, 'pmps', eps=eps)
            arrived(w, s2, m, which, eps=eps, mode='pmps')
        else:
            w.call(L.est_lfun_from, K, co, [SAMPLES % 2], eps)
        arrived(w, st, m, which, eps=eps)
        eps_used(w, m, which)


@case('handed_on:modes', 'C15', aspects=(), variants=False)
def f(w):
    """mode reaches the function that computes the probabilities."""
    EV.assume_nonneg = True
    eps = w.scalar('eps', F8)
    for mode in ('mps', 'pmps', 'mpdo'):
        M, S = povm(w, 'A', [2, 2], [2, 2], [2]), state(w, 'B', [2, 2], 'mpdo', bonds=[2])
        L = w.call(w.fn(ML), [M])
        st = Stub(('state', 'mode', 'eps', 'impl'), dict(eps=DEFAULT_EPS, mode='auto', impl='auto'),
                  lambda b: w.opaque('p', (2, 2), F8))
        L.mpps[0].pmf_as_array = st
        co = w.opaque('co', (4,), F8)
        w.call(L.lfun, [co], None, S, mode, eps)
        arrived(w, st, type(L).lfun, 'MPPovmList.lfun', mode=mode, eps=eps, state=S)
        w.call(L.pmf_as_array, S, mode, eps)
        arrived(w, st, type(L).pmf_as_array, 'MPPovmList.pmf_as_array', mode=mode, eps=eps)
        w.call(L.pmfs_as_array, [S], mode, False, eps)
        arrived(w, st, type(L).pmfs_as_array, 'MPPovmList.pmfs_as_array', mode=mode, eps=eps)
        w.call(L.mpps[0].pmfs_as_array, [S], mode, False, eps)
        arrived(w, st, type(M).pmfs_as_array, 'pmfs_as_array', mode=mode, eps=eps)
        st = Stub(('rng', 'state', 'n_samples', 'method', 'n_group', 'mode', 'pack', 'eps'),
                  dict(method='cond', n_group=1, mode='auto', pack=False, eps=DEFAULT_EPS), lambda b: SAMPLES)
        L.mpps[0].sample = st
        rs = caller()
        w.call(L.sample, rs, S, 5, 'cond', 3, mode, True, eps)
        w.call(L.sample, rs, S, 5, method='cond', n_group=3, mode=mode, pack=True, eps=eps)
        arrived(w, st, type(L).sample, 'MPPovmList.sample', rng=rs, state=S, n_samples=5, method='cond', n_group=3,
                mode=mode, pack=True, eps=eps)
        st = Stub(('state', 'mode'), dict(mode='auto'), lambda b: 7)
        L.mpps[0].pmf = st
        w.call(L.pmf, S, mode)
        arrived(w, st, type(L).pmf, 'MPPovmList.pmf', mode=mode)


@case('handed_on:est_pmf', 'C15', aspects=(), variants=False)
def f(w):
    M = povm(w, 'A', [2, 3], [2, 2], [2])
    L = w.call(w.fn(ML), [M])
    cnt = real.array([[1, 1, 0], [0, 1, 1]])
    for norm in (True, False):
        want = cnt / 4. if norm else cnt
        got = w.call(M.est_pmf, SAMPLES, norm)
        w.same(got, want, 'est_pmf(normalize=%s)' % norm, w.locate(type(M).est_pmf))
        got = w.call(L.est_pmf, [SAMPLES], norm)
        w.same(list(got)[0], want, 'MPPovmList.est_pmf(normalized=%s)' % norm, w.locate(type(L).est_pmf))
        if not norm:
            w.require(npm.promote(got[0]).kind in 'iu', 'est_pmf(normalize=False) does not return integer counts',
                      w.locate(type(M).est_pmf))


def _weights(lst):
    @case('option:est_lfun_weights[%s]' % ('list' if lst else 'one'), 'C15', aspects=(), variants=False)
    def f(w):
        EV.assume_nonneg = True
        M = povm(w, 'A', [2, 3], [2, 2], [2])
        fs = [lambda o, i=i: w.opaque('f%d' % i, (4,), F8) for i in range(2)]
        co = w.opaque('co', (2,), F8)
        wt = w.opaque('wt', (4,), F8)
        if lst:
            L = w.call(w.fn(ML), [M])
            a = w.call(L.est_lfun, [co], [fs], [SAMPLES])
            b = w.call(L.est_lfun, [co], [fs], [SAMPLES], [wt])
            m = type(L).est_lfun
        else:
            a = w.call(M.est_lfun, co, fs, SAMPLES)
            b = w.call(M.est_lfun, co, fs, SAMPLES, wt)
            m = type(M).est_lfun
        differs(w, a[0], b[0], 'option weights has no effect on the estimate', m)
        differs(w, a[1], b[1], 'option weights has no effect on the estimated variance', m)


_weights(False)
_weights(True)


@case('option:lfun_from_other_weights', 'C15', aspects=(), variants=False)
def f(w):
    EV.assume_nonneg = True
    match = real.zeros((2, 2, 2, 2), bool)
    pre = real.full((2, 2, 2, 2), real.nan)
    for i in range(2):
        for j in range(2):
            match[i, j, i, j], pre[i, j, i, j] = True, 1.
    M, N = povm(w, 'A', [2, 2], [2, 2], [2]), povm(w, 'C', [2, 2], [2, 2], [2])
    S = state(w, 'B', [2, 2], 'mpdo', bonds=[2])
    L, K = w.call(w.fn(ML), [M]), w.call(w.fn(ML), [N, N])
    L.mpps[0].match_elems = Stub(('other', 'exclude_dup', 'eps'), {}, lambda b: (match, pre))
    for i, k in enumerate(K.mpps):
        k.pmf_as_array = Stub(('state', 'mode', 'eps', 'impl'), {}, lambda b, i=i: w.opaque('p', (2, 2), F8))
    co = [real.array([[1., 2.], [3., 4.]])]
    a = w.call(L.lfun_from, K, co, S)
    b = w.call(L.lfun_from, K, co, S, other_weights=real.array([3, 1]))
    differs(w, a[1], b[1], 'option other_weights has no effect on the variance', type(L).lfun_from)


@case('option:exclude_dup', 'C15', aspects=(), variants=False)
def f(w):
    """Duplicates are looked for in the list(s) named, and only there."""
    def run(ex):
        EV.conds = []
        M = povm(w, 'A', [2, 3], [2, 2], [2])
        N = povm(w, 'C', [4, 5], [2, 2], [2])
        w.call(M.match_elems, N, exclude_dup=ex)
        return [tuple(A.shape) for op, A, B in EV.conds]
    m = w.fn('povm.mppovm.MPPovm.match_elems')
    n0 = run(())
    s, o, b = run(('self',)), run(('other',)), run(('self', 'other'))
    w.require(s != n0, "option exclude_dup=('self',) has no effect", w.locate(m))
    w.require(o != n0, "option exclude_dup=('other',) has no effect", w.locate(m))
    w.require(sorted(b, key=str) == sorted(n0 + s[len(n0):] + o[len(n0):], key=str) or b not in (n0, s, o),
              "option exclude_dup=('self', 'other') drops a check", w.locate(m))
    M = povm(w, 'A', [2, 3], [2, 2], [2])
    w.rejects(M.match_elems, M, exclude_dup=('both',))


def _pack(n, dtype):
    @case('option:pack[%s]' % (dtype if dtype in (True, False, None) else dtype.__name__), 'C15', aspects=(), variants=False)
    def f(w):
        M = povm(w, 'A', [2, 3], [2, 2], [2])
        got = w.call(M.pack_samples, SAMPLES, dtype)
        m = type(M).pack_samples
        w.same(got, real.array([1, 5, 4, 0]), 'pack_samples', w.locate(m))
        if isinstance(dtype, type):
            w.require(npm.promote(got) == real.dtype(dtype), 'pack_samples(dtype=%s) returns %s' % (
                dtype.__name__, npm.promote(got)), w.locate(m))
        rs = caller()
        rs.choice_hook = lambda a, size, replace, p: 1 if size is None else real.array([1] * int(size))
        EV.assume_nonneg = True
        S = state(w, 'B', [2, 2], 'mpdo', bonds=[2])
        s = w.call(M.sample, rs, S, 2, 'direct', mode='mpdo', pack=dtype)
        w.require(npm.arr_of(s).ndim == (1 if dtype else 2), 'sample(pack=%s) returns shape %s' % (dtype, s.shape),
                  w.locate(type(M).sample))
        if isinstance(dtype, type):
            w.require(npm.promote(s) == real.dtype(dtype), 'sample(pack=%s) returns %s' % (
                dtype.__name__, npm.promote(s)), w.locate(type(M).sample))


for _dt in (None, False, True, real.uint8, real.int32, real.uint16):
    _pack(0, _dt)


@case('option:n_group', 'C15', aspects=(), variants=False)
def f(w):
    EV.assume_nonneg = True
    outd = (2, 3, 2)
    for group in (1, 2, 3, 5):
        M, S = ms(w, 'mpdo', outd)
        sizes = []
        rs = caller()

        def choice(a, size, replace, p):
            sizes.append(int(a))
            return 1
        rs.choice_hook = choice
        w.call(M.sample, rs, S, 1, 'cond', group, 'mpdo')
        want = [int(real.prod(outd[i:i + group])) for i in range(0, 3, group)]
        w.require(sizes == want, 'sample(n_group=%d): draws from sets of %s outcomes instead of %s' % (group, sizes, want),
                  w.locate(type(M).sample))
    sizes = []

    def choice(a, size, replace, p):
        sizes.append((int(a), size))
        return real.array([0] * int(size))
    rs = caller()
    rs.choice_hook = choice
    w.call(M.sample, rs, S, 4, 'direct', mode='mpdo')
    w.require(sizes == [(12, 4)], 'sample(method=direct): draws %s' % (sizes,), w.locate(type(M).sample))
    w.rejects(M.sample, rs, S, 4, 'other', mode='mpdo')


# -- remaining options -----------------------------------------------------------------------------------
@case('option:types', 'C15', aspects=(), variants=False)
def f(w):
    """astype / mptype select the class of the result."""
    MPA, MPP = w.fn('mparray.MPArray'), w.fn('povm.mppovm.MPPovm')
    M, N = povm(w, 'A', [2, 2], [2, 2], [2]), povm(w, 'C', [2, 2], [2, 2], [2])
    E = w.mpa('E', [(3, 2), (3, 2)])
    dot, chain, pt = w.fn('mparray.dot'), w.fn('mparray.chain'), w.fn('mparray.partialtrace')
    for fn, args, kw, want in ((dot, (M, N), dict(axes=((1, 2), (1, 2)), astype=MPA), MPA),
                               (dot, (E, M), dict(astype=MPP), MPP), (dot, (E, M), {}, MPA),
                               (chain, ([M, N],), dict(astype=MPA), MPA), (chain, ([M, N],), {}, MPP),
                               (pt, (M,), dict(axes=(1, 2), mptype=MPA), MPA),
                               (M.get, ((0, 1),), dict(astype=MPA), MPA),
                               (M.get, ((slice(None), slice(0, 1)),), {}, MPP)):
        r = w.call(fn, *args, **kw)
        w.require(type(r) is want, '%s(%s) returns a %s' % (getattr(fn, '__name__', 'get'), kw, type(r).__name__),
                  w.locate(fn))


@case('option:localpovm', 'C15', aspects=(), variants=False)
def f(w):
    P = w.fn('povm.localpovm.POVM')
    els = [real.array([[1., 0], [0, 0]]), real.array([[0, 0], [0, 1.]])]
    for ic in (False, True):
        p = w.call(P, els, info_complete=ic)
        w.require(p.informationally_complete is ic, 'POVM(info_complete=%s) has informationally_complete=%s' % (
            ic, p.informationally_complete), w.locate(P.__init__))
        p = w.call(P.from_vectors, [real.array([1., 0]), real.array([0, 1.])], info_complete=ic)
        w.require(p.informationally_complete is ic, 'POVM.from_vectors(info_complete=%s)' % ic, w.locate(P.from_vectors))
        cc = w.fn('povm.localpovm.concat')
        p = w.call(cc, [p, p], [.5, .5], info_complete=ic)
        w.require(p.informationally_complete is ic, 'concat(info_complete=%s)' % ic, w.locate(cc))
    vs = [real.array([1., 0]), real.array([0, 1.])]
    for fn, args in ((P, (els,)), (P.from_vectors, (vs,)), (cc, ([w.call(P, els)] * 2, [.5, .5]))):
        p = w.call(fn, *args)
        w.require(p.informationally_complete is False, '%s claims informational completeness without being told' % (
            getattr(fn, '__name__', fn)), w.locate(P.__init__ if fn is P else fn))
    seen = []

    def pinv(a):
        seen.append(a)
        return w.opaque('pinv', (4, 2))
    p = w.call(P, els, info_complete=True, pinv=pinv)
    r = p.linear_inversion_map
    w.require(len(seen) == 1, 'POVM(pinv): the given function is not used', w.locate(P.__init__))
