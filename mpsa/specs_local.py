"""Local POVMs (C23): constants propagated through the constructors, one analysis per dimension."""
import itertools
import numpy as real
from . import tn, npm
from .cases import case
from .dims import Unsupported
from .specs_core import ein, flat

LP = 'povm.localpovm.'


def numbers_of(x):
    """The constant array a constructor returns."""
    a = npm.arr_of(x) if npm.is_abs(x) else real.asarray(x)
    if isinstance(a, npm.Arr):
        c = npm.concrete(a.val)
        if c is None:
            raise Unsupported('element is no constant')
        return real.asarray(c)
    return a


def elements(w, P):
    n = w.call(len, P)
    return [numbers_of(w.call(lambda i=i: P[i])) for i in range(n)]


def is_povm(w, els, d, what, where):
    for i, e in enumerate(els):
        w.require(e.shape == (d, d), '%s: element %d has shape %s' % (what, i, e.shape), where)
        w.require(bool(real.allclose(e, e.conj().T, atol=1e-12)), '%s: element %d is not hermitian' % (what, i), where)
        w.require(bool(real.linalg.eigvalsh((e + e.conj().T) / 2).min() > -1e-12),
                  '%s: element %d is not positive' % (what, i), where)
        w.require(bool(abs(e).max() > 1e-6), '%s: element %d vanishes' % (what, i), where)
    w.require(bool(real.allclose(sum(els), real.eye(d), atol=1e-12)), '%s: the elements do not sum to the identity' % what,
              where)


def spans(els, d):
    return int(real.linalg.matrix_rank(real.array([e.ravel() for e in els]))) == d * d


def vec(d, i, j, z):
    v = real.zeros(d, complex)
    v[i], v[j] = 1, z
    return v


def projectors(vs):
    return [real.outer(v, v.conj()) for v in vs]


def pair_vectors(d, z):
    """Eigenvectors of the generalised Pauli operators on every pair of levels, both signs, pair by pair."""
    return projectors([s / real.sqrt(2 * (d - 1)) for i in range(d - 1) for j in range(i + 1, d)
                       for s in (vec(d, i, j, z), vec(d, i, j, -z))])


def want_of(name, d):
    if name == 'z_povm':
        return projectors(real.eye(d))
    return pair_vectors(d, 1. if name == 'x_povm' else 1j)


def _local(d, tier):
    @case('local_povms[%d]' % d, 'C23', aspects=(), variants=False, tier=tier)
    def f(w):
        els = {}
        for name in ('x_povm', 'y_povm', 'z_povm'):
            fn = w.fn(LP + name)
            P = w.call(fn, d)
            els[name] = elements(w, P)
            is_povm(w, els[name], d, '%s(%d)' % (name, d), w.locate(fn))
            want = want_of(name, d)
            w.require(len(els[name]) == len(want) and all(real.allclose(a, b) for a, b in zip(els[name], want)),
                      '%s(%d): elements are not the documented projectors in order' % (name, d), w.locate(fn))
            w.require(not w.call(lambda: w.I.native(getattr, (P, 'informationally_complete'))) or spans(els[name], d),
                      '%s(%d) claims to be informationally complete' % (name, d), w.locate(fn))

    @case('pauli_parts[%d]' % d, 'C23', aspects=(), variants=False, tier=tier)
    def f(w):
        fn = w.fn(LP + 'pauli_parts')
        names = ('x_povm', 'y_povm', 'z_povm') if d == 2 else ('x_povm', 'y_povm')
        parts = list(w.call(fn, d))
        w.require(len(parts) == len(names), 'pauli_parts(%d): %d parts' % (d, len(parts)), w.locate(fn))
        for n, p in zip(names, parts):
            got, want = elements(w, p), want_of(n, d)
            w.require(len(got) == len(want) and all(real.allclose(a, b) for a, b in zip(got, want)),
                      'pauli_parts(%d): %s part differs' % (d, n[0]), w.locate(fn))
        fn = w.fn(LP + 'pauli_povm')
        P = w.call(fn, d)
        els = elements(w, P)
        want = [e / len(names) for n in names for e in want_of(n, d)]
        is_povm(w, els, d, 'pauli_povm(%d)' % d, w.locate(fn))
        w.require(len(els) == len(want) and all(real.allclose(a, b) for a, b in zip(els, want)),
                  'pauli_povm(%d): elements are not the weighted parts in order' % d, w.locate(fn))
        w.require(bool(w.call(lambda: w.I.native(getattr, (P, 'informationally_complete')))) and spans(els, d),
                  'pauli_povm(%d) is not informationally complete' % d, w.locate(fn))
        pm = numbers_of(w.call(lambda: w.I.native(getattr, (P, 'probability_map'))))
        w.require(bool(real.allclose(pm, real.array([e.T.ravel() for e in want]))), 'pauli_povm(%d): probability map' % d,
                  w.locate(fn))


for _d, _t in ((2, 'quick'), (3, 'quick'), (4, 'quick'), (5, 'quick'), (6, 'quick'), (7, 'quick'), (8, 'quick'), (9, 'thorough'),
               (10, 'thorough')):
    _local(_d, _t)


def dense_of(w, M):
    """Constant dense array of an MPArray, contracted site by site."""
    t = real.ones((1,))
    for l in w.lts(M):
        t = real.tensordot(t, numbers_of(l), (-1, 0))
    return t[..., 0]


def kron_elems(parts):
    """Product POVM: outcome axes first (site by site), operator axes (row, column) site by site."""
    t = real.array(1.)
    for p in parts:
        t = real.multiply.outer(t, real.array(p))
    return t


def _mp(n, d, tier):
    @case('pauli_mpp[%d,%d]' % (n, d), 'C23', aspects=(), variants=False, tier=tier)
    def f(w):
        names = ('x_povm', 'y_povm', 'z_povm') if d == 2 else ('x_povm', 'y_povm')
        fn = w.fn('povm.mppovm.pauli_mpp')
        M = w.call(fn, n, d)
        one = [e / len(names) for k in names for e in want_of(k, d)]
        w.require(w.I.native(len, (M,)) == n, 'pauli_mpp: %s sites' % w.I.native(len, (M,)), w.locate(fn))
        got = dense_of(w, M)
        want = kron_elems([one] * n)
        w.require(got.shape == want.shape and bool(real.allclose(got, want)), 'pauli_mpp(%d, %d): elements' % (n, d), w.locate(fn))
        fn = w.fn('povm.mppovm.pauli_mpps')
        L = w.call(fn, n, d)
        combos = list(itertools.product(names, repeat=n))
        w.require(len(L.mpps) == len(combos), 'pauli_mpps(%d, %d): %d POVMs' % (n, d, len(L.mpps)), w.locate(fn))
        for c, m in zip(combos, L.mpps):
            got, want = dense_of(w, m), kron_elems([want_of(k, d) for k in c])
            w.require(got.shape == want.shape and bool(real.allclose(got, want)), 'pauli_mpps(%d, %d): the POVM for %s is not at '
                      'its place' % (n, d, ''.join(k[0] for k in c)), w.locate(fn))


for _n, _d, _t in ((1, 2, 'quick'), (2, 2, 'quick'), (1, 3, 'quick'), (2, 3, 'quick'), (3, 2, 'quick')):
    _mp(_n, _d, _t)


def _eyepovm(hd):
    @case('mppovm_eye[%s]' % ''.join(map(str, hd)), 'C23', aspects=(), variants=False)
    def f(w):
        C = w.fn('povm.mppovm.MPPovm')
        M = w.call(C.eye, list(hd))
        got, want = dense_of(w, M), kron_elems([real.eye(h)[None] for h in hd])
        w.require(got.shape == want.shape and bool(real.allclose(got, want)), 'MPPovm.eye', w.locate(C.eye))


for _h in ((2,), (2, 3), (3, 2, 2)):
    _eyepovm(_h)


# -- estimates between product POVMs, end to end ---------------------------------------------------
def _product(w, parts, d):
    """MPPovm with the given local parts ('-' for no measurement), and its local elements as numbers."""
    C = w.fn('povm.mppovm.MPPovm')
    M, els, n = None, [], len(parts)
    lts = []
    for p, d in zip(parts, [d] * n if isinstance(d, int) else d):
        if p == '-':
            els.append([real.eye(d, dtype=complex)])
        elif p == 'p':
            names = ('x_povm', 'y_povm', 'z_povm') if d == 2 else ('x_povm', 'y_povm')
            els.append([e / len(names) for k in names for e in want_of(k, d)])
        else:
            els.append(want_of(p + '_povm', d))
    M = w.call(C.from_kron, [real.array(e) for e in els])
    return M, els


def _end_to_end(sp, op, d, tier='quick'):
    @case('est_pmf_from_pauli[%s,%s,%d]' % (sp, op, d), 'C22', aspects=(), variants=False, tier=tier)
    def f(w):
        M, es = _product(w, sp, d)
        O, eo = _product(w, op, d)
        n = len(sp)
        od = [len(e) for e in eo if len(e) > 1]
        g = real.random.RandomState(7 + len(sp) + ord(op[0]))
        smp = real.array([[g.randint(k) for k in od] for _ in range(7)], dtype=real.uint8).reshape(7, len(od))
        # other: outcomes on sites where self measures nothing are summed over
        keep = [k for k in range(n) if len(es[k]) > 1]
        opos = {k: i for i, k in enumerate(k for k in range(n) if len(eo[k]) > 1)}
        me = [es[k] if k in keep else [es[k][0]] for k in range(n)]
        fe = [eo[k] if k in keep else [sum(eo[k])] for k in range(n)]

        def full(els, out):
            r = real.array([[1.]])
            for e, o in zip(els, out):
                r = real.kron(r, e[o])
            return r
        mi = list(itertools.product(*[range(len(e)) for e in me]))
        fi = list(itertools.product(*[range(len(e)) for e in fe]))
        F = {j: full(fe, j) for j in fi}
        ns = [len(e) for e in es if len(e) > 1]
        want = real.full(ns, real.nan)
        hit = set()
        for i in mi:
            E = full(me, i)
            for j in fi:
                c = (real.trace(E.conj().T @ F[j]) / real.trace(F[j].conj().T @ F[j])).real
                if not real.allclose(E, c * F[j]):
                    continue
                q = tuple(i[k] for k in keep)
                cnt = [k for k, s in enumerate(smp) if all(s[opos[x]] == j[x] for x in keep if x in opos)]
                hit.update(cnt)
                want[q] = (0. if want[q] != want[q] else want[q]) + c * len(cnt) / len(smp)
        m = type(M).est_pmf_from
        p, used = w.call(M.est_pmf_from, O, smp)
        w.require(tuple(p.shape) == tuple(ns), 'est_pmf_from: shape %s' % (tuple(p.shape),), w.locate(m))
        got = numbers_of(p)
        w.require(bool(real.allclose(got, want, equal_nan=True)),
                  'est_pmf_from: estimate for the product POVM %s from samples of %s' % (sp, op), w.locate(m))
        w.require(int(used) == len(hit), 'est_pmf_from: %s of %d used samples' % (used, len(hit)), w.locate(m))


for _sp, _op in (('p', 'x'), ('p', 'z'), ('p-', 'xy'), ('-p', 'zx'), ('pp', 'xz'), ('pp', 'yy'), ('x-', 'xz'), ('p-p', 'xyz'), ('-p-', 'zyx'),
                 ('z--', 'zx-'), ('x-z', 'x-z')):
    _end_to_end(_sp, _op, 2)
_end_to_end('p-', 'xy', 3)
_end_to_end('-p', 'xx', 3)


# -- known states: constants throughout -------------------------------------------------------------
def _known_state(w, ds, mode, bond=2, seed=3):
    """A state with constant tensors, and its density matrix as numbers."""
    n = len(ds)
    rng = real.random.RandomState(seed)
    b = [1] + [bond] * (n - 1) + [1]
    lts = []
    for i, d in enumerate(ds):
        sh = (b[i],) + ((d,) if mode == 'mps' else (d, 2)) + (b[i + 1],)
        lts.append(rng.randint(-3, 4, sh) + 1j * rng.randint(-3, 4, sh))
    if mode == 'mpdo':
        lts = [real.einsum('aibc,djbe->adijce', t, t.conj()).reshape((t.shape[0]**2, t.shape[1], t.shape[1], t.shape[3]**2)) for t in lts]
    full = lts[0]
    for t in lts[1:]:
        full = real.tensordot(full, t, axes=(-1, 0))
    full = full[0, ..., 0]
    D = int(real.prod(ds))
    if mode == 'mps':
        rho = real.multiply.outer(full, full.conj())
    else:
        g = full.transpose([2 * i for i in range(n)] + [2 * i + 1 for i in range(n)])
        rho = g.reshape((D, D)) if mode == 'mpdo' else g.reshape((D, -1)).dot(g.reshape((D, -1)).conj().T)
    rho = rho.reshape((D, D))
    tr = real.trace(rho).real
    lts[0] = lts[0] / (tr if mode == 'mpdo' else real.sqrt(tr))
    return w.call(w.fn('mparray.MPArray'), [real.array(t) for t in lts]), rho / tr


def _known_probs(els, rho):
    """Outcome probabilities, one axis per site."""
    t = rho.reshape((1,) + rho.shape)
    for e in els:                                        # outcomes so far x remaining rows x remaining columns
        d = e[0].shape[0]
        r = t.shape[1] // d
        t = t.reshape((t.shape[0], d, r, d, r))
        t = real.einsum('oji,aixjy->aoxy', real.array(e), t).reshape((-1, r, r))
    return t.reshape([len(e) for e in els]).real


def _dims_of(parts, d):
    return [d] * len(parts) if isinstance(d, int) else list(d)


def _known_pmf(parts, d, mode, impl, tier='quick'):
    ds = _dims_of(parts, d)

    @case('pmf_known[%s,%s,%s,%s]' % (parts, ''.join(map(str, ds)), mode, impl), 'C12', aspects=(), variants=False, tier=tier)
    def f(w):
        M, els = _product(w, parts, ds)
        S, rho = _known_state(w, ds, mode)
        P = _known_probs(els, rho)
        P = P.reshape([k for k in P.shape if k > 1])
        m = type(M).pmf_as_array
        kw = {} if impl is None else dict(impl=impl)
        r = numbers_of(w.call(M.pmf_as_array, S, mode, _generic=True, **kw))
        w.require(r.shape == P.shape, 'pmf_as_array: shape %s instead of %s' % (r.shape, P.shape), w.locate(m))
        w.require(bool(real.allclose(r, P, atol=1e-9)), 'pmf_as_array(mode=%s, impl=%s): wrong probabilities' % (mode, impl), w.locate(m))


def _known_blocks(parts, d, N, tier='quick'):
    ds = _dims_of(parts, d)
    n = len(ds)
    for mode in ('mpdo',):         # the reductions of the other forms involve QR factors
        @case('block_pmfs_known[%s,%d,%d,%s]' % (parts, d, N, mode), 'C12', aspects=(), variants=False, tier=tier)
        def f(w, mode=mode):
            M, els = _product(w, parts, ds)
            S, rho = _known_state(w, [d] * N, mode)
            m = type(M).block_pmfs_as_array
            got = w.call(list, w.call(M.block_pmfs_as_array, S, mode, _generic=True))
            w.require(len(got) == N - n + 1, 'block_pmfs_as_array yields %d of %d results' % (len(got), N - n + 1), w.locate(m))
            one = [real.eye(d, dtype=complex)]
            for k, g in enumerate(got):
                P = _known_probs([one] * k + els + [one] * (N - n - k), rho)
                P = P.reshape([x for x in P.shape if x > 1])
                g = numbers_of(g)
                w.require(g.shape == P.shape and bool(real.allclose(g, P, atol=1e-9)), 'block_pmfs_as_array: wrong probabilities for the '
                          'block at site %d' % k, w.locate(m))


for _mode in ('mps', 'pmps', 'mpdo'):
    for _impl in (None, 'default') + (('pmps-symm', 'pmps-ltr') if _mode == 'pmps' else ()):
        for _parts, _d in (('xzyxz', 2), ('xpzpx', [3, 2, 3, 2, 2]), ('zpxz', [3, 2, 3, 2]), ('p-x', [2, 3, 3]), ('-xz-p', [2, 3, 2, 3, 2]),
                           ('z', 3), ('---', 2), ('zxzyzxz', 2), ('pzx', [2, 3, 4])):
            _known_pmf(_parts, _d, _mode, _impl)
for _parts, _d, _N in (('xz', 2, 5), ('x', 3, 4), ('z-x', 2, 6), ('zy', 2, 7)):
    _known_blocks(_parts, _d, _N)


def _known(parts, d, method, mode, group, picks, tier='quick'):
    """Drawing from a valid state never fails, and each row is drawn with its outcome probability."""
    ds = _dims_of(parts, d)

    @case('sampling_known[%s,%s,%s,%s,%d,%d]' % (parts, ''.join(map(str, ds)), method, mode, group, picks), 'C21', aspects=(),
          variants=False, tier=tier)
    def f(w):
        from .specs_rng import caller
        M, els = _product(w, parts, ds)
        S, rho = _known_state(w, ds, mode)
        P = _known_probs(els, rho)
        P = P.reshape([k for k in P.shape if k > 1])
        meth = type(M).sample
        used = []
        rs = caller()

        def choice(a, size, replace, p):
            w.require(p is not None, 'draws outcomes without probabilities', w.locate(meth))
            q = numbers_of(p).ravel().real
            w.require(len(q) == int(a) and abs(q.sum() - 1) < 1e-8 and q.min() > -1e-9, 'invalid probabilities handed to the generator',
                      w.locate(meth))
            cnt = 1 if size is None else int(size)
            order = real.argsort(-q)
            c = [int(order[(picks + 2 * i + len(used)) % max(1, int((q > 1e-6).sum()))]) for i in range(cnt)]
            used.extend(float(q[x]) for x in c)
            return c[0] if size is None else real.array(c)
        rs.choice_hook = choice
        r = w.call(M.sample, rs, S, 2, method, n_group=group, mode=mode, _generic=True)
        rows = real.asarray(numbers_of(r)).real.astype(int)
        w.require(rows.shape == (2, P.ndim), 'sample: shape %s' % (rows.shape,), w.locate(meth))
        want = 1.
        for row in rows:
            w.require(all(a < b for a, b in zip(row, P.shape)), 'sample: outcome %s out of range' % (tuple(row),), w.locate(meth))
            want *= P[tuple(row)]
        w.require(abs(want - real.prod(used)) < 1e-9, 'the probability with which the samples are drawn is not their outcome probability',
                  w.locate(meth))


for _mode in ('mps', 'pmps', 'mpdo'):
    for _parts, _d in (('xzy', 2), ('p-z', 2), ('xzyxz', 2), ('zx', 3), ('zxpz', [3, 2, 2, 3]), ('zxzxzxz', 2)):
        for _g in (1, 2, 3):
            for _pk in (0, 1, 3):
                _known(_parts, _d, 'cond', _mode, _g, _pk)
        if len(_parts) < 4:
            _known(_parts, _d, 'direct', _mode, 1, 2)


# -- compression of known arrays --------------------------------------------------------------------
def values_of(w, m):
    """The represented array as numbers, where factors of constant matrices count as numbers."""
    r = None
    for t in w.lts(m):
        x = npm.number(npm.ten_of(t))
        if x is None:
            raise Unsupported('no constant')
        r = x if r is None else real.tensordot(r, x, axes=(-1, 0))
    return r[0, ..., 0]


def _redundant(shapes, true, bond, seed=5, cplx=True):
    """Constant tensors with bond dimension `bond` of an array of Schmidt ranks at most `true`."""
    n = len(shapes)
    rng = real.random.RandomState(seed)
    b = [1] + [true] * (n - 1) + [1]
    lts = []
    for i, s in enumerate(shapes):
        t = rng.randint(-3, 4, (b[i],) + s + (b[i + 1],)) + (1j * rng.randint(-3, 4, (b[i],) + s + (b[i + 1],)) if cplx else 0.)
        lts.append(t)
    for i in range(n - 1):
        g = rng.randint(-2, 3, (true, bond)) + 0.
        lts[i] = real.tensordot(lts[i], g, axes=(-1, 0))
        lts[i + 1] = real.tensordot(real.linalg.pinv(g), lts[i + 1], axes=(-1, 0))
    return lts


def _dense(lts):
    r = lts[0]
    for t in lts[1:]:
        r = real.tensordot(r, t, axes=(-1, 0))
    return r[0, ..., 0]


def _compress_known(shapes, true, bond, rank, direction, window, which, tier='quick'):
    name = ','.join(''.join(map(str, s)) for s in shapes)

    @case('compress_known[%s,%d,%d,%d,%s,%s,%s]' % (name, true, bond, rank, direction, window, which), 'C10', aspects=(), variants=False,
          tier=tier)
    def f(w):
        lts = _redundant(shapes, true, bond)
        D = _dense(lts)
        A = w.call(w.fn('mparray.MPArray'), [real.array(t) for t in lts])
        if window:
            w.call(A.canonicalize, *window)
        m = getattr(type(A), which)
        kw = dict(rank=rank)
        if direction:
            kw['direction'] = direction
        r = w.call(getattr(A, which), 'svd', _generic=True, **kw)
        C, ov = (A, r) if which == 'compress' else r
        w.require(all(x <= rank for x in C.ranks), '%s(rank=%d) gives ranks %s' % (which, rank, list(C.ranks)), w.locate(m))
        got = values_of(w, C)
        err = real.linalg.norm(got - D)
        # an SVD sweep loses at most the discarded weights of all bipartitions
        n, lost, pos = len(shapes), 0., 0
        for i in range(n - 1):
            pos += len(shapes[i])
            sv = real.linalg.svd(D.reshape((int(real.prod(D.shape[:pos])), -1)), compute_uv=False)
            lost += (sv[rank:]**2).sum()
        scale = real.linalg.norm(D)
        w.require(err**2 <= lost + (1e-7 * scale)**2, '%s(rank=%d): the result is off by %.3g, more than the discarded singular values '
                  'allow (%.3g)' % (which, rank, err, lost**.5), w.locate(m))
        o = npm.number(npm.ten_of(ov))
        if o is not None:
            w.require(abs(complex(o) - real.vdot(got, got)) <= 1e-6 * scale**2, '%s: the overlap is not the squared norm of the result' % which,
                      w.locate(m))


for _sh in ([(3,), (3,)], [(2,), (3,), (2,)]):
    _n = len(_sh)
    for _dir in (None, 'left', 'right'):
        for _win in (None, (1, None), (None, 1), (1, 2), (2, None))[:3 if _n < 3 else 5]:
            for _tr, _bd, _rk in ((2, 4, 2), (3, 3, 2), (1, 3, 1)):
                if _n < 3 or _bd == 3 or _win in (None, (1, None)):
                    _compress_known(_sh, _tr, _bd, _rk, _dir, _win, 'compress')
            if _n < 3 or _win is None:
                _compress_known(_sh, 2, 4, 2, _dir, _win, 'compression')
