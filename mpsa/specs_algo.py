"""Compression (C10) and iterative eigenvector search (C11)."""
import numpy as real
from . import tn, npm
from .npm import Arr
from .cases import case
from .specs_core import phys, ein, flat
from .world import F8, C16


def inner(a, b):
    x = list(range(a.ndim))
    return Arr(tn.tensordot(tn.conj(a.val), b.val, x, x), npm.promote(a.dtype, b.dtype))


# =============================================================================================
# C10
# =============================================================================================
def le(w, r, rank):
    return all(x <= rank for x in r.ranks)


def _svd_cases(L, reg, legs, tier):
    lab = '%s,%s' % (''.join(map(str, legs)), reg)

    def setup(w):
        w.regime = reg
        A = w.mpa('A', phys(w, legs))
        return A, w.D(A)

    for direction in (None, 'left', 'right'):
        for how in ('compress', 'compression'):
            @case('svd_full[%s,%s,%s]' % (lab, direction, how), 'C10', tier=tier)
            def f(w, direction=direction, how=how):
                A, D = setup(w)
                before = list(A.ranks)
                kw = dict(direction=direction) if direction else {}
                m = getattr(type(A), how)
                if how == 'compress':
                    ov = w.call(A.compress, **kw)
                    r = A
                else:
                    r, ov = w.call(A.compression, 'svd', **kw)
                    w.same(w.dense(A), D, 'array after compression()', w.locate(m))
                w.result(r, D, what='%s() without rank or error budget' % how, f=m, fresh=how != 'compress',
                         modified=('A',) if how == 'compress' else (), legs=legs)
                w.same(ov, inner(D, D), 'overlap returned by %s()' % how, w.locate(m))
                w.require(all(a <= b for a, b in zip(r.ranks, before)), '%s() increases a rank: %s -> %s' % (
                    how, before, list(r.ranks)), w.locate(m))

        for rank in (1, 2, 3):
            for how in ('compress', 'compression'):
                @case('svd_rank[%s,%s,%d,%s]' % (lab, direction, rank, how), 'C10', tier=tier)
                def f(w, direction=direction, rank=rank, how=how):
                    A, D = setup(w)
                    C = w.call(A.copy)
                    before = list(A.ranks)
                    kw = dict(direction=direction) if direction else {}
                    m = getattr(type(A), how)
                    if how == 'compress':
                        ov = w.call(A.compress, rank=rank, **kw)
                        r = A
                        o, ov2 = w.call(C.compression, rank=rank, **kw)
                        w.same(w.dense(o), w.dense(r), 'compress() and compression() differ', w.locate(m))
                    else:
                        r, ov = w.call(A.compression, method='svd', rank=rank, **kw)
                        w.same(w.dense(A), D, 'array after compression()', w.locate(m))
                    w.result(r, D if not before or max(before) <= rank else None, what='%s(rank=%d)' % (how, rank), f=m,
                             fresh=how != 'compress', modified=('A',) if how == 'compress' else (), legs=legs)
                    w.require(all(x <= rank for x in r.ranks), '%s(rank=%d) gives ranks %s' % (
                        how, rank, list(r.ranks)), w.locate(m))
                    dr = w.D(r)
                    w.require(tuple(dr.shape) == tuple(D.shape), '%s: shape changed' % how, w.locate(m))
                    w.same(ov, inner(D, dr), '%s(rank=%d): returned overlap <u|c>' % (how, rank), w.locate(m))
                    w.same(ov, inner(dr, dr), '%s(rank=%d): <u|c> = <c|c>' % (how, rank), w.locate(m))

        for relerr in (0., .25):
            @case('svd_relerr[%s,%s,%s]' % (lab, direction, relerr), 'C10', tier=tier if L < 3 else 'thorough')
            def f(w, direction=direction, relerr=relerr):
                A, D = setup(w)
                before = list(A.ranks)
                kw = dict(direction=direction) if direction else {}
                m = type(A).compression
                r, ov = w.call(A.compression, rank=2, relerr=relerr, **kw)
                w.result(r, what='compression(relerr)', f=m, legs=legs)
                w.require(all(x <= 2 and x <= b for x, b in zip(r.ranks, before)),
                          'compression(rank=2, relerr=%s) gives ranks %s' % (relerr, list(r.ranks)), w.locate(m))
                dr = w.D(r)
                w.same(ov, inner(D, dr), 'compression(relerr): returned overlap <u|c>', w.locate(m))
                w.same(ov, inner(dr, dr), 'compression(relerr): <u|c> = <c|c>', w.locate(m))

    # without re-canonicalisation a compression that need not truncate keeps the array in any case
    for direction in ('left', 'right'):
        @case('svd_nocanon[%s,%s]' % (lab, direction), 'C10', tier=tier)
        def f(w, direction=direction):
            A, D = setup(w)
            m = type(A).compression
            r, ov = w.call(A.compression, direction=direction, canonicalize=False)
            big = max(list(r.ranks) + [1])
            w.result(r, D, what='compression(canonicalize=False)', f=m, legs=legs)
            # the sweep moves the non-canonical part to its end
            w.same(ov, inner(D, D), 'overlap of compression(canonicalize=False)', w.locate(m))


for _legs, _regs in (([1, 1], ('thin', 'mid', 'fat')), ([1, 1, 1], ('thin', 'mid')), ([2, 2], ('mid',)), ([2, 0, 1], ('eq',))):
    for _r in _regs:
        _svd_cases(len(_legs), _r, _legs, 'quick')
_svd_cases(4, 'eq', [1, 1, 1, 1], 'quick')
_svd_cases(3, 'mid', [2, 1, 2], 'thorough')
_svd_cases(4, 'mid', [1, 1, 1, 1], 'thorough')


@case('svd_one_site', 'C10')
def f(w):
    A = w.mpa('A', phys(w, [2]))
    D = w.D(A)
    m = type(A).compression
    r, ov = w.call(A.compression, rank=1)
    w.result(r, D, what='compression of one site', f=m)
    w.same(ov, inner(D, D), 'overlap', w.locate(m))
    r, ov = w.call(A.compression, 'var', num_sweeps=1, rank=1)
    w.result(r, D, what='variational compression of one site', f=m)
    w.same(ov, inner(D, D), 'overlap', w.locate(m))
    ov = w.call(A.compress)
    w.result(A, D, what='compress of one site', f=m, fresh=False, modified=('A',))
    w.same(ov, inner(D, D), 'overlap', w.locate(m))


def _var(L, legs, reg, vs, bonds, tier, sweeps=1):
    lab = '%s,%s,%d,%s' % (''.join(map(str, legs)), reg, vs, bonds)

    @case('var_start[%s]' % lab, 'C10', tier=tier)
    def f(w):
        w.regime = reg
        A = w.mpa('A', phys(w, legs))
        D = w.D(A)
        S = w.mpa('S', phys(w, legs), bonds=list(bonds))
        m = type(A).compression
        r, ov = w.call(A.compression, 'var', num_sweeps=sweeps, startmpa=S, var_sites=vs)
        w.result(r, what='variational compression', f=m, legs=legs)
        w.require(all(x <= max(bonds) for x in r.ranks), 'variational compression: ranks %s exceed %d' % (
            list(r.ranks), max(bonds)), w.locate(m))
        dr = w.D(r)
        w.require(tuple(dr.shape) == tuple(D.shape), 'variational compression: shape changed', w.locate(m))
        w.same(w.dense(A), D, 'array after variational compression', w.locate(m))
        w.same(ov, inner(D, dr), 'variational compression: returned overlap <u|c>', w.locate(m))
        w.same(ov, inner(dr, dr), 'variational compression: <u|c> = <c|c>', w.locate(m))

    @case('var_inplace[%s]' % lab, 'C10', tier=tier)
    def f(w):
        w.regime = reg
        A = w.mpa('A', phys(w, legs))
        D = w.D(A)
        S = w.mpa('S', phys(w, legs), bonds=list(bonds))
        C = w.call(A.copy)
        m = type(A).compress
        ov = w.call(A.compress, 'var', num_sweeps=sweeps, startmpa=S, var_sites=vs)
        o, ov2 = w.call(C.compression, 'var', num_sweeps=sweeps, startmpa=S, var_sites=vs)
        w.same(w.dense(A), w.dense(o), 'compress() and compression() differ', w.locate(m))
        w.result(A, what='compress(var)', f=m, fresh=False, modified=('A',), legs=legs)
        w.same(ov, ov2, 'overlaps of compress() and compression() differ', w.locate(m))

    @case('var_random[%s]' % lab, 'C10', tier=tier)
    def f(w):
        w.regime = reg
        A = w.mpa('A', phys(w, legs))
        D = w.D(A)
        m = type(A).compression
        rs = npm.RNG(5)
        r, ov = w.call(A.compression, 'var', num_sweeps=sweeps, rank=max(bonds), var_sites=vs, randstate=rs)
        w.result(r, what='variational compression', f=m, legs=legs)
        w.require(all(x <= max(bonds) for x in r.ranks), 'variational compression: ranks %s exceed %d' % (
            list(r.ranks), max(bonds)), w.locate(m))
        dr = w.D(r)
        w.same(ov, inner(D, dr), 'variational compression: returned overlap <u|c>', w.locate(m))


for _vs in (1, 2):
    _var(2, [1, 1], 'mid', _vs, [2], 'quick')
    _var(3, [1, 1, 1], 'eq', _vs, [2, 2], 'quick')
    _var(3, [1, 1, 1], 'mid', _vs, [2, 3], 'quick')
    _var(2, [2, 2], 'eq', _vs, [2], 'quick')
    _var(3, [2, 1, 0], 'eq', _vs, [2, 1], 'thorough')
    _var(4, [1, 1, 1, 1], 'eq', _vs, [2, 2, 2], 'quick' if _vs == 2 else 'thorough')
    _var(3, [1, 1, 1], 'eq', _vs, [2, 2], 'quick', 2) if False else None
_var(3, [1, 1, 1], 'eq', 3, [2, 2], 'quick')


def _var_exact(L, vs, sweeps, tier, dims=None, full=None):
    """Full-rank start array: every projection is the identity and the result is the array itself."""
    full = full or [2 ** min(i, L - i) for i in range(1, L)]
    dims = dims or [2] * L

    @case('var_exact[%d,%d,%d%s]' % (L, vs, sweeps, '' if dims == [2] * L else ',%s' % dims), 'C10', tier=tier, aspects=('cform', 'alias'))
    def f(w):
        A = w.mpa('A', [(d,) for d in dims], bonds=full)
        S = w.mpa('S', [(d,) for d in dims], bonds=full)
        D = w.D(A)
        m = type(A).compression
        r, ov = w.call(A.compression, 'var', num_sweeps=sweeps, startmpa=S, var_sites=vs)
        w.result(r, D, what='variational compression with sufficient rank', f=m)
        w.same(ov, inner(D, D), 'overlap', w.locate(m))


for _L in (2, 3):
    for _vs in (1, 2):
        _var_exact(_L, _vs, 1, 'quick')
_var_exact(3, 1, 2, 'quick')
_var_exact(4, 2, 1, 'quick')
for _vs in (1, 2):
    _var_exact(3, _vs, 1, 'quick', [3, 2, 2], [3, 2])
    _var_exact(3, _vs, 1, 'quick', [2, 2, 3], [2, 3])
    _var_exact(3, _vs, 1, 'quick', [1, 2, 2], [1, 2])
    _var_exact(3, _vs, 1, 'quick', [2, 2, 1], [2, 1])


@case('var_large_rank', 'C10')
def f(w):
    w.regime = 'mid'
    A = w.mpa('A', phys(w, [1, 2, 1]))
    D = w.D(A)
    m = type(A).compression
    r, ov = w.call(A.compression, 'var', num_sweeps=1, rank=100)
    w.result(r, D, what='variational compression with rank above the rank of the array', f=m)
    w.same(ov, inner(D, D), 'overlap', w.locate(m))
    ov = w.call(A.compress, 'var', num_sweeps=1, rank=100)
    w.result(A, D, what='compress(var) with rank above the rank of the array', f=m, fresh=False, modified=('A',))
    w.same(ov, inner(D, D), 'overlap', w.locate(m))


def _spsum(L, n, rank, weights, tier):
    @case('special_sumup[%d,%d,%s,%s]' % (L, n, rank, weights), 'C10', tier=tier)
    def f(w):
        sh = [(3, 2)[i % 2:][:1] for i in range(L)]
        ms = [w.mpa('ABC'[i], sh, bonds=[1] * (L - 1)) for i in range(n)]
        ws = None
        if weights == 'array':
            ws = w.array('w', (n,))
        elif weights:
            ws = [w.scalar('w%d' % i) for i in range(n)]
        D = None
        for i, m in enumerate(ms):
            t = w.D(m) * ws[i] if weights else w.D(m)
            D = t if D is None else D + t
        fn = w.fn('special.sumup')
        kw = dict(weights=ws) if weights else {}
        r = w.call(fn, iter(ms), rank, **kw)
        exact = rank >= n
        w.result(r, D if exact else None, what='special.sumup', f=fn, like=D)
        w.require(all(x <= rank for x in r.ranks), 'special.sumup(rank=%d) gives ranks %s' % (rank, list(r.ranks)),
                  w.locate(fn))
        if not exact:
            w.require(tuple(w.D(r).shape) == tuple(D.shape), 'special.sumup: wrong shape', w.locate(fn))


for _L in (1, 2, 3):
    for _n in (1, 2, 3):
        for _wt in (False, True):
            _spsum(_L, _n, _n, _wt, 'quick')
            _spsum(_L, _n, _n + 2, _wt, 'quick')
    _spsum(_L, 3, 2, True, 'quick')
    _spsum(_L, 2, 3, 'array', 'quick')
    _spsum(_L, 2, 1, False, 'quick')
_spsum(4, 2, 2, True, 'quick')
_spsum(4, 3, 2, False, 'quick')


# =============================================================================================
# C11
# =============================================================================================
class Tracker(object):
    """The state of a one-site-at-a-time variational sweep, in its own gauge."""

    def __init__(self, lts):
        self.t = [Arr(npm.ten_of(l), npm.arr_of(l).dtype) for l in lts]
        self.L = len(self.t)
        self.l, self.r = 0, self.L

    def left(self, n):
        """Sites before n left-isometric."""
        for i in range(self.l, n):
            a = self.t[i]
            s = a.shape
            q, r = npm.qr(a.reshape((-1, s[-1])))
            self.t[i] = q.reshape(tuple(s[:-1]) + (q.shape[1],))
            b = self.t[i + 1]
            self.t[i + 1] = npm.tensordot(r, b, axes=(1, 0))
        self.l = max(self.l, n)
        self.r = max(self.r, self.l + 1)

    def right(self, n):
        """Sites from n on right-isometric."""
        for i in range(self.r - 1, n - 1, -1):
            a = self.t[i]
            s = a.shape
            q, r = npm.qr(a.reshape((s[0], -1)).T)
            self.t[i] = q.T.reshape((q.shape[1],) + tuple(s[1:]))
            self.t[i - 1] = npm.tensordot(self.t[i - 1], r.T, axes=(self.t[i - 1].ndim - 1, 0))
        self.r = min(self.r, n)
        self.l = min(self.l, self.r - 1)

    def env(self, pos, vs):
        """Left and right isometries as arrays (x, l), (r, y) with x, y the dense outer indices."""
        a = npm.ones((1,), dtype=float)
        for i in range(pos):
            a = npm.tensordot(a, self.t[i], axes=(a.ndim - 1, 0))
        b = npm.ones((1,), dtype=float)
        for i in range(self.L - 1, pos + vs - 1, -1):
            b = npm.tensordot(self.t[i], b, axes=(self.t[i].ndim - 1, 0))
        return a, b

    def local(self, pos, vs):
        a = self.t[pos]
        for i in range(pos + 1, pos + vs):
            a = npm.tensordot(a, self.t[i], axes=(a.ndim - 1, 0))
        return a

    def write(self, pos, vs, v):
        """Store the new local state v on sites pos..pos+vs-1 (no truncation)."""
        sh = self.local(pos, vs).shape
        v = v.reshape(tuple(sh))
        if vs == 1:
            self.t[pos] = v
        else:
            for i in range(pos, pos + vs - 1):
                s = v.shape
                q, r = npm.qr(v.reshape((s[0] * s[1], -1)))
                self.t[i] = q.reshape((s[0], s[1], q.shape[1]))
                v = r.reshape((q.shape[1],) + tuple(s[2:]))
            self.t[pos + vs - 1] = v
        self.l, self.r = pos, pos + vs
        if vs > 1:
            self.l = pos + vs - 1

    def dense(self):
        a = self.local(0, self.L)
        return a.reshape(a.shape[1:-1])


def positions(L, vs, sweeps):
    out = []
    for n in range(sweeps):
        out += [p for p in range(L - vs + 1) if not (p == 0 and n > 0)]
        out += list(reversed(range(L - vs)))
    return out


def projected(H, tr, pos, vs):
    """Projection of the dense operator H (axes row, col site by site) onto the varied sites:
    axes (l', s'..., r', l, s..., r)."""
    L = tr.L
    a, b = tr.env(pos, vs)
    nl, nr = pos, L - pos - vs
    hl = flat([[('i', k), ('j', k)] for k in range(L)])
    ac = [('i', k) for k in range(nl)] + ['lc']
    al = [('j', k) for k in range(nl)] + ['l']
    bc = ['rc'] + [('i', k) for k in range(pos + vs, L)]
    bl = ['r'] + [('j', k) for k in range(pos + vs, L)]
    out = ['lc'] + [('i', k) for k in range(pos, pos + vs)] + ['rc'] + ['l'] + [('j', k) for k in range(pos, pos + vs)] + ['r']
    # bring the dense isometries into the label order
    return ein([hl, ac, al, bc, bl], out, H, a.conj(), a, b.conj(), b)


def _eig(L, vs, sweeps, spec, vecdim, tier, bonds=None, which='eig', dims=None, hbonds=None):
    """spec: string of 'o' (operator) and 's' (state projector) summands."""
    bonds = bonds or [2 ** min(i, L - i) for i in range(1, L)]
    name = '' if dims is None and hbonds is None else ',%s,%s' % (dims, hbonds)

    @case('%s[%d,%d,%d,%s,%d,%s%s]' % (which, L, vs, sweeps, spec, vecdim, bonds, name), 'C11', tier=tier,
          aspects=('cform', 'alias', 'dtype'))
    def f(w):
        ds = dims or [2] * L
        hb = hbonds or [2] * (L - 1)
        ms, H = [], None
        for i, s in enumerate(spec):
            if s == 'o':
                m = w.mpa('ABC'[i], [(d, d) for d in ds], bonds=hb)
                h = w.D(m)
            else:
                m = w.mpa('ABC'[i], [(d,) for d in ds], bonds=hb)
                p = w.D(m)
                h = ein([[('i', k) for k in range(L)], [('j', k) for k in range(L)]],
                        flat([[('i', k), ('j', k)] for k in range(L)]), p, p.conj())
            H = h if H is None else H + h
            ms.append(m)
        S = w.mpa('S', [(d,) for d in ds], bonds=bonds)
        log = []

        def eigs(op, v0=None, **kw):
            """A step of the power iteration: independent of the basis chosen for the bonds."""
            n = len(log)
            op, v0 = define('op%d' % n, npm.arr_of(op)), define('v0%d' % n, npm.arr_of(v0))
            vec = define('vec%d' % n, npm.dot(op, v0))
            val = w.opaque('val%d' % n, (1,), F8)
            log.append((Arr(op.val, op.dtype), Arr(v0.val, v0.dtype), val))
            return val, vec if vecdim == 1 else vec.reshape((vec.shape[0], 1))
        fn = w.fn('linalg.' + which)
        arg = ms[0] if which == 'eig' else iter(ms)
        val, r = w.call(fn, arg, sweeps, var_sites=vs, startvec=S, eigs=eigs)
        w.result(r, what=which, f=fn)
        if 'value' not in w.aspects:
            return
        where = w.locate(fn)
        pos = positions(L, vs, sweeps)
        w.require(len(log) == len(pos), '%s solves %d local problems instead of %d' % (which, len(log), len(pos)), where)
        tr = Tracker(w.lts(S))
        tr.right(1)
        for k, ((op, v0, ev), p) in enumerate(zip(log, pos)):
            tr.left(p)
            tr.right(p + vs)
            cur = tr.local(p, vs)
            n = cur.size
            what = '%s step %d (sites %d..%d)' % (which, k, p, p + vs - 1)
            w.require(tuple(op.shape) == (n, n), '%s: local operator has shape %s, projected space has dimension %s' % (
                what, tuple(op.shape), n), where)
            P = projected(H, tr, p, vs)
            sh = tuple(cur.shape)
            O = op.reshape(sh + sh)
            ph = list(range(1, 1 + vs))
            lab = ['l'] + [('i', q) for q in ph] + ['r'] + ['l'] + [('j', q) for q in ph] + ['r']
            out = [('i', q) for q in ph] + [('j', q) for q in ph]
            w.same(ein([lab], out, O), ein([lab], out, P), '%s: local operator (trace over bonds)' % what, where)
            Pm = define('own_op%d' % k, P.reshape((n, n)))
            x = define('own_v%d' % k, cur.reshape((n,)))
            w.same(inner(v0, v0), inner(x, x), '%s: norm of the start vector handed to the solver' % what, where)
            w.same(inner(v0, npm.dot(op, v0)), inner(x, npm.dot(Pm, x)),
                   '%s: energy of the current state in the local problem' % what, where)
            y, z = npm.dot(op, v0), npm.dot(Pm, x)
            w.same(inner(y, npm.dot(op, y)), inner(z, npm.dot(Pm, z)),
                   '%s: local operator on the solution' % what, where)
            w.same(tr2(op), tr2(Pm), '%s: second moment of the local operator' % what, where)
            tr.write(p, vs, define('own%d' % k, z))
        w.same(val, log[-1][2].reshape(()), '%s: returned eigenvalue' % which, where)
        w.require(all(a <= b for a, b in zip(r.ranks, bonds)), '%s: ranks %s of the result, start vector has %s' % (
            which, list(r.ranks), bonds), where)
        w.same(w.dense(r), tr.dense(), '%s: returned vector' % which, where)


def define(name, a):
    """A name for the value of a (keeps expressions small)."""
    t = tn.opaque(name, a.val.axes, a.dtype.kind != 'c')
    tn.ST.defs[name] = a.val
    return Arr(t, a.dtype)


def tr2(a):
    return ein([['i', 'j'], ['j', 'i']], [], a, a)


for _vs in (1, 2):
    for _vd in (1, 2):
        _eig(3, _vs, 1, 'o', _vd, 'quick')
    _eig(3, _vs, 1, 'os', 2, 'quick', which='eig_sum')
    _eig(3, _vs, 1, 'o', 1, 'quick', which='eig_sum')
    _eig(3, _vs, 1, 'so', 1, 'quick', which='eig_sum')
    _eig(3, _vs, 1, 's', 1, 'quick', which='eig_sum')
    _eig(3, _vs, 2, 'o', 2, 'quick')
    _eig(3, _vs, 2, 'so', 2, 'quick', which='eig_sum')
    _eig(4, _vs, 1, 'o', 2, 'quick')
    _eig(4, _vs, 1, 'oos', 2, 'thorough', which='eig_sum')
    _eig(4, _vs, 2, 'o', 2, 'thorough')
for _w, _sp in (('eig', 'o'), ('eig_sum', 'os')):
    _eig(3, 1, 1, _sp, 2, 'quick', which=_w, dims=[2, 3, 2], bonds=[2, 2], hbonds=[1, 2])
    _eig(3, 1, 1, _sp, 2, 'quick', which=_w, dims=[3, 2, 2], bonds=[3, 2])
    _eig(3, 2, 1, _sp, 2, 'quick', which=_w, dims=[3, 2, 2], bonds=[3, 2], hbonds=[2, 1])
    _eig(3, 2, 1, _sp, 2, 'quick', which=_w, dims=[2, 2, 3], bonds=[2, 3], hbonds=[2, 3])
    _eig(2, 1, 1, _sp, 1, 'quick', which=_w, dims=[3, 4], bonds=[3], hbonds=[3])
_eig(2, 1, 1, 'o', 2, 'quick')
_eig(2, 1, 1, 'os', 2, 'quick', which='eig_sum')
_eig(4, 3, 1, 'o', 2, 'quick')
_eig(4, 3, 1, 'so', 2, 'thorough', which='eig_sum')
