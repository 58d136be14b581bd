"""Ranks of constructors (C19) and degenerate values (C02, C03, C10)."""
from . import npm
from .cases import case
from .dims import dmin, prod
from .npm import real
from .specs_core import nm
from .specs_rng import caller


def maximal(shapes):
    d = [prod(s) for s in shapes]
    return [dmin(prod(d[:i]), prod(d[i:])) for i in range(1, len(d))]


def ints(shapes):
    """Maximal ranks with Python integers of any size."""
    d = []
    for s in shapes:
        k = 1
        for x in s:
            k *= int(x)
        d.append(k)
    out = []
    for i in range(1, len(d)):
        a = b = 1
        for x in d[:i]:
            a *= x
        for x in d[i:]:
            b *= x
        out.append(min(a, b))
    return out


for _n in (1, 2, 3, 4):
    @case('full_rank[%d]' % _n, 'C19', aspects=(), variants=False)
    def f(w, n=_n):
        fn = w.fn('mparray.full_rank')
        one = [w.dim('d%d' % i) for i in range(n)]
        w.require(list(w.call(fn, one)) == maximal([(d,) for d in one]), 'full_rank of %d legs' % n, w.locate(fn))
        two = [(w.dim('e%d' % i), w.dim('f%d' % i)) for i in range(n)]
        w.require(list(w.call(fn, two)) == maximal(two), 'full_rank of %d sites with two legs' % n, w.locate(fn))


LONG = (('2x130', [(2,)] * 130), ('(2,3)x60', [(2, 3)] * 60), ('mixed', [(7,), (2, 2), (5,)] * 25), ('2x64', [(2,)] * 64),
        ('2x8', [(2,)] * 8), ('3,1,2,5', [(3,), (1,), (2,), (5,)]))


def _long(name, shapes):
    @case('full_rank_long[%s]' % name, 'C19', aspects=(), variants=False)
    def f(w):
        fn = w.fn('mparray.full_rank')
        want = ints(shapes)
        arg = [s[0] for s in shapes] if all(len(s) == 1 for s in shapes) else shapes
        for a in (arg, shapes):
            got = [int(x) for x in w.call(fn, a)]
            bad = [i for i, (x, y) in enumerate(zip(got, want)) if x != y]
            w.require(len(got) == len(want) and not bad, 'full_rank of %d sites: %s' % (
                len(shapes), 'rank %d is %d instead of %d' % (bad[0] + 1, got[bad[0]], want[bad[0]]) if bad else 'length'),
                w.locate(fn))

    for rank in (1, 3):
        @case('constructor_long[%s,%d]' % (name, rank), 'C19', aspects=(), variants=False)
        def f(w, rank=rank):
            want = [min(rank, x) for x in ints(shapes)]
            L = len(shapes)
            for nmz, kw in (('zero', {}), ('random_mpa', dict(randstate=caller()))):
                fn = w.fn('factory.' + nmz)
                r = w.call(fn, L, shapes, rank, **kw)
                w.require(list(r.ranks) == want, '%s: ranks %s instead of %s' % (nmz, list(r.ranks), want), w.locate(fn))
                w.require(tuple(r.shape) == tuple(shapes), '%s: shape' % nmz, w.locate(fn))
                r = w.call(fn, L, shapes, rank, force_rank=True, **kw)
                w.require(list(r.ranks) == [rank] * (L - 1), '%s(force_rank): ranks %s' % (nmz, list(r.ranks)), w.locate(fn))
                if rank == 1:
                    p = w.call(r.pad_ranks, 4)
                    want4 = [min(4, x) for x in ints(shapes)]
                    w.require(list(p.ranks) == [max(x, 1) for x in want4], 'pad_ranks: ranks %s instead of %s' % (
                        list(p.ranks), want4), w.locate(type(r).pad_ranks))


for _n, _s in LONG:
    _long(_n, _s)


def _rank_of(cid, path, args, kw, shapes, ranks):
    @case('rank_%s' % cid, 'C19', aspects=(), variants=False)
    def f(w):
        fn = w.fn(path)
        r = w.call(fn, *args, randstate=caller(), **kw)
        got = list(r.ranks)
        w.require(got == ranks, '%s: ranks %s instead of %s' % (path, got, ranks), w.locate(fn))
        w.require(tuple(tuple(s) for s in r.shape) == tuple(shapes), '%s: shape %s instead of %s' % (path, r.shape, shapes),
                  w.locate(fn))


for _L in (1, 2, 3, 4):
    for _rk in (1, 2, 3, 9):
        for _force in (False, True):
            for _nm, _sh in (('random_mps', (2,)), ('random_mpo', (2, 2)), ('random_mpa', (2,)), ('random_mpa', (3,))):
                _ld = _sh[0]
                _full = ints([_sh] * _L)
                _rank_of('%s[%d,%d,%d,%s]' % (_nm, _L, _ld, _rk, _force), 'factory.' + _nm, (_L, _ld, _rk),
                         dict(force_rank=True) if _force else {}, [_sh] * _L, [_rk if _force else min(_rk, x) for x in _full])
    for _rk in ((1, 2, 3) if _L < 4 else (1,)):
        _rank_of('random_mpdo[%d,%d]' % (_L, _rk), 'factory.random_mpdo', (_L, 2, _rk), {}, [(2, 2)] * _L, [_rk] * (_L - 1))


# -- degenerate values ----------------------------------------------------------------------------
def _zero(L, bonds, where_):
    """Arrays in which one local tensor vanishes represent zero in every form."""
    def build(w):
        b = [1] + list(bonds) + [1]
        lts = []
        for i in range(L):
            sh = (b[i], 2, b[i + 1])
            lts.append(npm.zeros(sh, float) if i == where_ else w.array('A%d' % i, sh))
        return w.call(w.fn('mparray.MPArray'), lts)
    lab = '%d,%s,%d' % (L, nm(bonds), where_)

    @case('zero_canonicalize[%s]' % lab, 'C02', aspects=(), variants=False)
    def f(w):
        for left, right in ((None, None), ('afull', None), (None, 'afull'), (L - 1, None), (None, 1)):
            A = build(w)
            w.call(A.canonicalize, left, right)
            w.same(w.dense(A), npm.zeros((2,) * L, float), 'vanishing array after canonicalize(%s, %s)' % (left, right),
                   w.locate(type(A).canonicalize))

    @case('zero_norm[%s]' % lab, 'C02', aspects=(), variants=False)
    def f(w):
        fn = w.fn('mparray.norm')
        A = build(w)
        w.same(w.call(fn, A), npm.zeros((), float), 'norm of a vanishing array', w.locate(fn))
        w.same(w.dense(A), npm.zeros((2,) * L, float), 'vanishing array after norm', w.locate(fn))

    @case('zero_sumup[%s]' % lab, 'C03', aspects=(), variants=False)
    def f(w):
        fn = w.fn('mparray.sumup')
        A, B = build(w), w.mpa('B', [(2,)] * L)
        for ws in ([0., 0.], [0, 0], [0., 1.], [1., 0.]):
            w.same(w.dense(w.call(fn, [A, B], weights=ws)), npm.Arr(w.dense(B), real.dtype(complex)) * ws[1], 'sumup with weights %s' % (ws,), w.locate(fn))


for _L, _b in ((1, ()), (2, (1,)), (2, (2,)), (3, (1, 1)), (3, (2, 2)), (3, (1, 2)), (4, (2, 1, 2))):
    for _i in range(_L):
        _zero(_L, _b, _i)


def _zero_compress(L, bonds):
    @case('zero_compress[%d,%s]' % (L, nm(bonds)), 'C10', aspects=(), variants=False,
          tier='thorough' if L > 2 and 2 in bonds else 'quick')
    def f(w):
        for kw in (dict(rank=1), dict(), dict(direction='left'), dict(direction='right', rank=2), dict(relerr=0.1),
                   dict(relerr=0., direction='left')):
            b = [1] + list(bonds) + [1]
            A = w.call(w.fn('mparray.MPArray'), [npm.zeros((b[i], 2, b[i + 1]), float) for i in range(L)])
            C, ov = w.call(A.compression, 'svd', **kw)
            m = w.locate(type(A).compression)
            w.same(w.dense(C), npm.zeros((2,) * L, float), 'compression of zero with %s' % (kw,), m)
            w.same(ov, npm.zeros((), float), 'overlap of the compression of zero with %s' % (kw,), m)
            if 'rank' in kw:
                w.require(all(x <= kw['rank'] for x in C.ranks), 'compression of zero: ranks %s' % (C.ranks,), m)
            ov = w.call(A.compress, 'svd', **kw)
            w.same(w.dense(A), npm.zeros((2,) * L, float), 'compress of zero with %s' % (kw,), m)
            w.same(ov, npm.zeros((), float), 'overlap of compress of zero with %s' % (kw,), m)


for _L, _b in ((1, ()), (2, (1,)), (2, (2,)), (3, (1, 1)), (3, (2, 2)), (3, (2, 1))):
    _zero_compress(_L, _b)
