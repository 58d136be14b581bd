"""Operands that do not fit are rejected (C16): a normal return on such operands is a violation."""
import operator
import numpy as real
from . import npm
from .cases import case
from .specs_povm import povm, state
from .world import Violation, F8, C16

#: pairs of dimensions that differ: unrelated, broadcastable either way, off by one for every d
MISMATCH = {'2/3': lambda w: (2, 3), '1/2': lambda w: (1, 2), '2/1': lambda w: (2, 1),
            'd/d+1': lambda w: (w.dim('d'), w.dim('d') + 1), 'd/2d': lambda w: (w.dim('d'), 2 * w.dim('d'))}


def rcase(cid):
    return case('reject:' + cid, 'C16', aspects=(), variants=True)


def unchanged(w, A, keys, cf, what):
    w.require([npm.ten_of(l).key() for l in w.lts(A)] == keys and w.cform(A) == cf,
              '%s: rejected, but the array was changed' % what)


def keys(w, A):
    return [npm.ten_of(l).key() for l in w.lts(A)], w.cform(A)


# -- pairs of arrays with different lengths ------------------------------------------------------
def _pairs(w):
    m = w.fn('mparray')
    return {
        'add': lambda A, B: w.rejects(operator.add, A, B),
        'sub': lambda A, B: w.rejects(operator.sub, A, B),
        'sumup': lambda A, B: w.rejects(w.fn('mparray.sumup'), iter([A, B])),
        'sumup_weights': lambda A, B: w.rejects(w.fn('mparray.sumup'), [A, B], weights=[2., 3.]),
        'inner': lambda A, B: w.rejects(w.fn('mparray.inner'), A, B),
        'normdist': lambda A, B: w.rejects(w.fn('mparray.normdist'), A, B),
        'compress_startmpa': lambda A, B: w.rejects(A.compression, method='var', num_sweeps=1, var_sites=1, startmpa=B),
    }


PAIRS = ('add', 'sub', 'sumup', 'sumup_weights', 'inner', 'normdist', 'compress_startmpa')
LENGTHS = ((1, 2), (2, 1), (2, 3), (3, 2), (1, 3), (3, 1))


def _len(op, a, b):
    @rcase('%s_lengths[%d,%d]' % (op, a, b))
    def f(w):
        d = w.dim('d')
        A = w.mpa('A', [(d,)] * a)
        B = w.mpa('B', [(d,)] * b)
        _pairs(w)[op](A, B)


for _op in PAIRS:
    for _a, _b in LENGTHS:
        _len(_op, _a, _b)


def _shape(op, L, site, mm):
    @rcase('%s_shapes[%d,%d,%s]' % (op, L, site, mm))
    def f(w):
        x, y = MISMATCH[mm](w)
        e = w.dim('e')
        A = w.mpa('A', [(e, x) if i == site else (e, e) for i in range(L)])
        B = w.mpa('B', [(e, y) if i == site else (e, e) for i in range(L)])
        _pairs(w)[op](A, B)


for _op in PAIRS:
    for _L in (1, 2, 3):
        for _s in range(_L):
            for _m in MISMATCH:
                _shape(_op, _L, _s, _m)


def _legs(op, L, site, sa, sb):
    @rcase('%s_legs[%d,%d,%s,%s]' % (op, L, site, sa, sb))
    def f(w):
        A = w.mpa('A', [sa if i == site else (2,) for i in range(L)])
        B = w.mpa('B', [sb if i == site else (2,) for i in range(L)])
        _pairs(w)[op](A, B)


for _op in PAIRS:
    for _L, _s in ((1, 0), (2, 0), (2, 1), (3, 1), (3, 0), (3, 2)):
        for _sa, _sb in (((2,), (2, 2)), ((6,), (2, 3)), ((2, 3), (6,)), ((2, 3), (3, 2)), ((), (1,)), ((1,), ()),
                         ((4,), (2, 2)), ((2,), (2, 1)), ((1, 2), (2,))):
            _legs(_op, _L, _s, _sa, _sb)


# -- products ------------------------------------------------------------------------------------
def _dotlen(a, b):
    @rcase('dot_lengths[%d,%d]' % (a, b))
    def f(w):
        d = w.dim('d')
        A, B = w.mpa('A', [(d, d)] * a), w.mpa('B', [(d, d)] * b)
        w.rejects(w.fn('mparray.dot'), A, B)
        w.rejects(w.fn('mparray.dot'), A, B, axes=((0, 1), (0, 1)))
        w.rejects(w.fn('mparray.localouter'), A, B)

    @rcase('sandwich_lengths[%d,%d]' % (a, b))
    def f(w):
        d = w.dim('d')
        A, B, C = w.mpa('A', [(d, d)] * a), w.mpa('B', [(d,)] * b), w.mpa('C', [(d,)] * a)
        w.rejects(w.fn('mparray.sandwich'), A, B)
        w.rejects(w.fn('mparray.sandwich'), A, B, C)
        w.rejects(w.fn('mparray.sandwich'), A, C, B)


for _a, _b in LENGTHS:
    _dotlen(_a, _b)


def _dotdim(L, site, mm):
    @rcase('dot_dims[%d,%d,%s]' % (L, site, mm))
    def f(w):
        x, y = MISMATCH[mm](w)
        e = w.dim('e')
        A = w.mpa('A', [(e, x) if i == site else (e, e) for i in range(L)])
        B = w.mpa('B', [(y, e) if i == site else (e, e) for i in range(L)])
        w.rejects(w.fn('mparray.dot'), A, B)
        w.rejects(w.fn('mparray.dot'), A, B, axes=(1, 0))
        w.rejects(w.fn('mparray.dot'), A, B, axes=((0, 1), (1, 0)))
        w.rejects(w.fn('mparray.dot'), B, A, axes=(0, -1))
        w.rejects(w.fn('mparray.partialdot'), A, B, 0)

    @rcase('sandwich_dims[%d,%d,%s]' % (L, site, mm))
    def f(w):
        x, y = MISMATCH[mm](w)
        e = w.dim('e')
        A = w.mpa('A', [(x, x) if i == site else (e, e) for i in range(L)])
        B = w.mpa('B', [(y,) if i == site else (e,) for i in range(L)])
        C = w.mpa('C', [(x,) if i == site else (e,) for i in range(L)])
        w.rejects(w.fn('mparray.sandwich'), A, B)
        w.rejects(w.fn('mparray.sandwich'), A, B, C)
        w.rejects(w.fn('mparray.sandwich'), A, C, B)


for _L in (1, 2, 3):
    for _s in range(_L):
        for _m in MISMATCH:
            if '1/' not in _m and '/1' not in _m:       # a unit leg is broadcast by some contraction routines
                _dotdim(_L, _s, _m)


def _dotaxes(L, D, d, axes):
    @rcase('dot_axes[%d,%d,%d,%s]' % (L, D, d, str(axes).replace(' ', '')))
    def f(w):
        A = w.mpa('A', [(d, d)] * L, bonds=[D] * (L - 1))
        B = w.mpa('B', [(d, d)] * L, bonds=[D] * (L - 1))
        w.rejects(w.fn('mparray.dot'), A, B, axes=axes)
        w.rejects(w.fn('mparray.partialdot'), A, B, 0, axes=axes)


for _L in (1, 2, 3):
    for _D, _d in ((2, 2), (3, 2), (1, 1), (1, 2)):
        for _ax in ((2, 0), (0, 2), (3, 3), ((0, 2), (0, 1)), ((0, 1), (1, 2)), ((0, 1), (0,)),
                    ((0,), (0, 1)), ((0, 1, 1), (0, 1, 1)), ((0, 0), (0, 1)), ((-1, 1), (0, 1))):
            _dotaxes(_L, _D, _d, _ax)


def _pdot(n1, n2, start):
    @rcase('partialdot_start[%d,%d,%d]' % (n1, n2, start))
    def f(w):
        d = w.dim('d')
        A, B = w.mpa('A', [(d, d)] * n1), w.mpa('B', [(d, d)] * n2)
        w.rejects(w.fn('mparray.partialdot'), A, B, start)
        w.rejects(w.fn('mparray.partialdot'), B, A, start)


for _a in ((1, 1, 1), (1, 1, -1), (2, 1, 2), (2, 1, -1), (2, 1, -2), (3, 1, 3), (3, 2, 2), (3, 2, 3), (3, 2, -1),
           (3, 2, -3), (4, 2, 3), (4, 1, 5)):
    _pdot(*_a)


def _pdotdim(n, start, mm):
    @rcase('partialdot_dims[%d,%d,%s]' % (n, start, mm))
    def f(w):
        x, y = MISMATCH[mm](w)
        A = w.mpa('A', [(x, x)] * n)
        B = w.mpa('B', [(y, y)])
        w.rejects(w.fn('mparray.partialdot'), A, B, start)
        w.rejects(w.fn('mparray.partialdot'), B, A, start)


for _n in (1, 2, 3):
    for _s in range(_n):
        for _m in ('2/3', 'd/d+1'):
            _pdotdim(_n, _s, _m)


# -- weights, lists ------------------------------------------------------------------------------
def _weights(n, L, k):
    @rcase('sumup_nweights[%d,%d,%d]' % (n, L, k))
    def f(w):
        d = w.dim('d')
        ms = [w.mpa('ABCD'[i], [(d,)] * L) for i in range(n)]
        ws = [1., 2., 3., 4., 5.][:k]
        w.rejects(w.fn('mparray.sumup'), ms, weights=ws)
        w.rejects(w.fn('mparray.sumup'), iter(ms), weights=iter(ws))

    @rcase('special_sumup_nweights[%d,%d,%d]' % (n, L, k))
    def f(w):
        ms = [w.mpa('ABCD'[i], [(2,)] * L, bonds=[1] * (L - 1)) for i in range(n)]
        ws = [1., 2., 3., 4., 5.][:k]
        w.rejects(w.fn('special.sumup'), ms, 2, weights=ws)


for _n in (1, 2, 3):
    for _L in (1, 2, 3):
        for _k in (0, _n - 1, _n + 1):
            if _k != _n and (_n, _L, _k) != (1, 1, 0):
                try:
                    _weights(_n, _L, _k)
                except AssertionError:
                    pass


@rcase('empty_lists')
def f(w):
    w.rejects(w.fn('mparray.sumup'), [])
    w.rejects(w.fn('mparray.sumup'), iter([]))
    w.rejects(w.fn('mparray.chain'), [])
    w.rejects(w.fn('mparray.chain'), iter([]), _types=Exception)
    w.rejects(w.fn('mparray.local_sum'), [])
    w.rejects(w.fn('mpstruct.LocalTensors'), [])
    w.rejects(w.fn('mparray.MPArray'), [])
    w.rejects(w.fn('mparray.MPArray.from_kron'), [])


def _special(L, site, sa, sb):
    @rcase('special_sumup_shapes[%d,%d,%s,%s]' % (L, site, sa, sb))
    def f(w):
        A = w.mpa('A', [sa if i == site else (2,) for i in range(L)], bonds=[1] * (L - 1))
        B = w.mpa('B', [sb if i == site else (2,) for i in range(L)], bonds=[1] * (L - 1))
        w.rejects(w.fn('special.sumup'), [A, B], 2)
        w.rejects(w.fn('special.sumup'), [A, B], 2, weights=[1., 2.])


for _L, _s in ((1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2)):
    for _sa, _sb in (((2,), (3,)), ((1,), (2,)), ((2,), (1,)), ((6,), (2, 3)), ((2, 3), (3, 2)), ((2,), (2, 1)), ((1, 2), (2,))):
        _special(_L, _s, _sa, _sb)


@rcase('special_lengths')
def f(w):
    for a, b in LENGTHS:
        A = w.mpa('A', [(2,)] * a, bonds=[1] * (a - 1))
        B = w.mpa('B', [(2,)] * b, bonds=[1] * (b - 1))
        w.rejects(w.fn('special.sumup'), [A, B], 2)
        w.rejects(w.fn('special.inner_prod_mps'), A, B)


@rcase('special_requirements')
def f(w):
    """Sums of arrays which are no products, products of arrays with a wrong number of legs."""
    A = w.mpa('A', [(2,)] * 3, bonds=[2, 1])
    B = w.mpa('B', [(2,)] * 3, bonds=[1, 1])
    C = w.mpa('C', [(2, 2)] * 3, bonds=[1, 1])
    G = w.mpa('G', [(3,), (2,), (2,)], bonds=[1, 1])
    H = w.mpa('H', [(2,), (1,), (2,)], bonds=[1, 1])
    w.rejects(w.fn('special.sumup'), [A, B], 2)
    w.rejects(w.fn('special.sumup'), [B, A], 2)
    w.rejects(w.fn('special.inner_prod_mps'), A, B)
    w.rejects(w.fn('special.inner_prod_mps'), C, C)
    w.rejects(w.fn('special.inner_prod_mps'), B, C)
    w.rejects(w.fn('special.inner_prod_mps'), C, B)
    w.rejects(w.fn('special.inner_prod_mps'), B, G)
    w.rejects(w.fn('special.inner_prod_mps'), G, B)
    w.rejects(w.fn('special.inner_prod_mps'), B, H)
    w.rejects(w.fn('special.inner_prod_mps'), H, B)


@rcase('scalars_only')
def f(w):
    A = w.mpa('A', [(2,), (2,)])
    v = w.array('v', (2,))
    for other in (v, A, None, [2.]):
        for op in (operator.mul, operator.truediv, operator.imul, operator.itruediv):
            k = keys(w, A)
            w.rejects(op, A, other)
            unchanged(w, A, *k, what='multiplication by non-scalar')


# -- axes ----------------------------------------------------------------------------------------
def _sumaxes(legs, axes):
    lab = '%s;%s' % (legs, str(axes).replace(' ', ''))

    @rcase('sum_axes[%s]' % lab)
    def f(w):
        A = w.mpa('A', [tuple(w.dim('d%d%d' % (i, j)) for j in range(n)) for i, n in enumerate(legs)])
        w.rejects(A.sum, axes)


for _l, _ax in (([1], 1), ([2], 2), ([2, 2], 2), ([2, 2], (0, 2)), ([2, 1], 1),
                ([1, 2], 1), ([1, 1, 1], 1), ([0], 0), ([1, 0], 0), ([0, 1], 0),
                ([2, 2], [(0,)]), ([2, 2], [(0,), (1,), (0,)]), ([2, 2], [None]), ([2, 2, 2], [None, None]),
                ([2, 2], [(0,), (2,)]), ([2, 2, 2], [(), (5,), ()]), ([1], [None, None]),
                ([2, 2], [None, None, ()])):
    _sumaxes(_l, _ax)


def _axit(legs, axes):
    @rcase('axis_iter[%s;%s]' % (legs, str(axes).replace(' ', '')))
    def f(w):
        A = w.mpa('A', [(2, 3, 2)[:n] for n in legs])
        w.rejects(A.axis_iter, axes)


for _l, _ax in (([1], 1), ([2, 2], 2), ([1, 2], 1), ([2, 1], 1), ([2, 2], [0]),
                ([2, 2], [0, 0, 0]), ([2, 2], [0, 2]), ([0, 1], 0), ([1, 1, 1], [0, 0])):
    _axit(_l, _ax)


def _get(legs, idx):
    @rcase('get[%s;%s]' % (legs, str(idx).replace(' ', '')))
    def f(w):
        A = w.mpa('A', [(2, 3, 2)[:n] for n in legs])
        w.rejects(A.get, idx)


for _l, _i in (([1], ()), ([1], (0, 0)), ([1, 1], (0,)), ([1, 1], (0, 0, 0)), ([1, 1], (2, 0)), ([1, 1], (0, 2)),
               ([2, 1, 1], (0, 0)), ([2, 2], (1, 2)), ([1, 2, 1], [0, 1])):
    _get(_l, _i)


def _transp(legs, axes):
    @rcase('transpose[%s;%s]' % (legs, axes))
    def f(w):
        A = w.mpa('A', [tuple(w.dim('d%d' % j) for j in range(n)) for n in legs])
        w.rejects(A.transpose, axes)


for _l, _ax in (([2], (0,)), ([2], (0, 0)), ([2, 2], (0, 2)), ([2, 2], (1, 0, 2)), ([3, 2], (0, 1, 2)),
                ([2, 3], (1, 0)), ([1, 1], (1,)), ([2, 2], (0, -2)), ([2, 2], (3, 0))):
    _transp(_l, _ax)


def _ptr(legs, axes):
    lab = '%s;%s' % (legs, str(axes).replace(' ', ''))

    @rcase('partialtrace[%s]' % lab)
    def f(w):
        d = w.dim('d')
        A = w.mpa('A', [(d,) * n for n in legs])
        w.rejects(w.fn('mparray.partialtrace'), A, axes)
        w.rejects(w.fn('mparray.trace'), A, axes)

    @rcase('partialtrace_bonds[%s]' % lab)
    def f(w):
        """Bond legs of the same size as the physical legs are no substitute."""
        A = w.mpa('A', [(2,) * n for n in legs], bonds=[2] * (len(legs) - 1))
        w.rejects(w.fn('mparray.partialtrace'), A, axes)
        w.rejects(w.fn('mparray.trace'), A, axes)


for _l, _ax in (([2], (0, 2)), ([1], (0, 1)), ([2, 1], (0, 1)), ([1, 2], (0, 1)), ([2, 2], (1, 2)),
                ([2, 2], [(0, 1)]), ([2, 2], [(0, 1)] * 3), ([2, 2, 2], [(0, 1), None]),
                ([2, 2], [None]), ([2, 2], [(0, 1), (0, 2)]), ([2, 2], [(0, 3), None]), ([0, 2], (0, 1)),
                ([2, 2], (0, 0)), ([2, 2], [(1, 1), None]), ([2, 2], (0, -2)), ([3, 3], (0, 1, 2)), ([2, 2], (0,)),
                ([3, 3], [(0, 1, 2), None]), ([2, 2], [(0,), None])):
    _ptr(_l, _ax)


@rcase('trace_remaining_legs')
def f(w):
    d = w.dim('d')
    for legs, axes in (([3, 3], (0, 1)), ([2, 2], [(0, 1), None]), ([1], [None]), ([2, 3], (0, 1))):
        A = w.mpa('A', [(d,) * n for n in legs])
        w.rejects(w.fn('mparray.trace'), A, axes)


def _diag(shapes, axis):
    @rcase('diag[%s;%d]' % (shapes, axis))
    def f(w):
        A = w.mpa('A', shapes)
        w.rejects(w.fn('mparray.diag'), A, axis)


for _sh, _ax in (([(2,), (3,)], 0), ([(3,), (2,)], 0), ([(2,), (2,), (3,)], 0), ([(2, 3), (2, 3)], 2),
                 ([(2, 2), (2,)], 0), ([(2,), (2, 2)], 0), ([(2,)], 1), ([(2, 3), (2, 4)], 1),
                 ([(2, 3), (2, 4)], -1), ([(2,), (1,)], 0), ([(1,), (2,)], 0)):
    _diag(_sh, _ax)


# -- shapes --------------------------------------------------------------------------------------
def _reshape(shapes, new):
    @rcase('reshape[%s;%s]' % (shapes, new))
    def f(w):
        A = w.mpa('A', shapes)
        w.rejects(A.reshape, new)
        w.rejects(A.reshape, iter(new))


for _sh, _n in (([(6,), (6,)], [(2, 3)]), ([(6,), (6,)], [(2, 3), (3, 2), (6,)]), ([(6,), (6,)], (4,)), ([(6,), (6,)], (2, 2)),
                ([(6,), (6,)], [(2, 3), (5,)]), ([(6,), (4,)], (6,)), ([(6,), (4,)], (4,)), ([(6,)], (7,)),
                ([(6,), (6,), (6,)], [(6,), (6,)]), ([(6,), (6,)], (-1, -1)), ([(6,), (6,)], (4, -1)), ([(6,), (6,)], [(), (6,)])):
    _reshape(_sh, _n)


@rcase('group_split')
def f(w):
    d = w.dim('d')
    for L, n in ((3, 2), (2, 3), (1, 2), (5, 2), (4, 3)):
        A = w.mpa('A', [(d,)] * L)
        w.rejects(A.group_sites, n)
    for legs, n in (([3], 2), ([2, 3], 2), ([3, 2], 2), ([1, 1], 2), ([4, 2], 4), ([2], 3)):
        A = w.mpa('A', [(d,) * k for k in legs])
        w.rejects(A.split_sites, n)


@rcase('vlegs')
def f(w):
    d = w.dim('d')
    for L in (1, 2, 3):
        A = w.mpa('A', [(d, d)] * L, bonds=[w.dim('D%d' % i) for i in range(L - 1)])
        for pos in (L - 1, L, L + 3, -1, -2, -L - 1):
            w.rejects(A.vleg2leg, pos)
            w.rejects(A.leg2vleg, pos)
    # a leg can become a bond only where the bond is trivial and the legs fit
    A = w.mpa('A', [(d, d), (d, d), (d, d)], bonds=[2, 1])
    w.rejects(A.leg2vleg, 0)
    A = w.mpa('A', [(d, 2), (3, d)], bonds=[1])
    w.rejects(A.leg2vleg, 0)
    A = w.mpa('A', [(d, 2), (1, d)], bonds=[1])
    w.rejects(A.leg2vleg, 0)


@rcase('from_array')
def f(w):
    C = w.fn('mparray.MPArray')
    a4 = w.array('a', [w.dim('x%d' % i) for i in range(4)])
    a3 = w.array('b', [w.dim('x%d' % i) for i in range(3)])
    for a, nd in ((a4, 3), (a3, 2), (a4, 5), (a4, (1, 2)), (a4, (3,)), (a4, (2, 3)), (a4, (1, 1, 1)), (a4, (4, 1, 1, 2)),
                  (a3, (2,)), (a3, (0, 2)), (a3, 4)):
        if isinstance(nd, tuple) and sum(nd[:1]) == 4:
            continue
        w.rejects(C.from_array, a, nd)
    for a, nd in ((a4, 3), (a3, 2), (a4, 5), (a3, 4)):
        w.rejects(C.from_array_global, a, nd)
    w.rejects(C.from_array_global, a4, 1, has_virtual=True)
    g, l = w.fn('utils.array_transforms.global_to_local'), w.fn('utils.array_transforms.local_to_global')
    for f_ in (g, l):
        w.rejects(f_, a4, 3)
        w.rejects(f_, a3, 2)
        w.rejects(f_, a4, 2, left_skip=1)
        w.rejects(f_, a4, 2, right_skip=1)
        w.rejects(f_, a4, 4, left_skip=1, right_skip=1)


@rcase('to_array_global')
def f(w):
    d = w.dim('d')
    for legs in ([1, 2], [2, 1], [0, 1], [1, 2, 1], [3, 1, 1], [1, 2, 3], [1, 3]):
        if sum(legs) % len(legs):
            A = w.mpa('A', [(d,) * k for k in legs])
            w.rejects(A.to_array_global)


# -- positions -----------------------------------------------------------------------------------
@rcase('regular_slices')
def f(w):
    fn = w.fn('mparray.regular_slices')
    for a in ((5, 2, 2), (4, 1, 2), (7, 3, 3), (6, 1, 4), (5, 3, 4)):
        w.rejects(fn, *a)


def _embed(length, sl, width):
    @rcase('embed_slice[%d,%s,%d]' % (length, sl, width))
    def f(w):
        d = w.dim('d')
        A = w.mpa('A', [(d, d)] * width)
        w.rejects(w.fn('mparray.embed_slice'), length, slice(*sl), A)
        w.rejects(w.fn('mparray.embed_slice'), length, slice(*sl), A, w.array('E', (d, d)))


for _a in ((3, (0, 2), 1), (3, (0, 1), 2), (3, (2, 4), 2), (3, (3, 4), 1), (3, (4, 6), 2), (3, (0, None), 2), (3, (1, None), 3),
           (4, (0, 4, 2), 2), (4, (0, 2, 2), 1), (4, (3, 1, -1), 2), (2, (0, 3), 3), (4, (0, 4, 2), 4), (2, (1, 1), 1), (1, (0, 2), 2)):
    _embed(*_a)


@rcase('embed_default_tensor')
def f(w):
    """Without embedding tensor the first site must be a square matrix."""
    for sh in ([(2,)], [(2, 3)], [(2, 2, 2)], [(2,), (2, 2)], [(2, 1)], [()], [(1, 2), (2, 2)]):
        A = w.mpa('A', sh)
        n = len(sh)
        w.rejects(w.fn('mparray.embed_slice'), n + 1, slice(0, n), A)
        w.rejects(w.fn('mparray.local_sum'), [A, A])
        w.rejects(w.fn('mparray.local_sum'), [A, A], length=n + 2, slices=[slice(0, n), slice(2, n + 2)])


def _lsum(widths, slices, length):
    @rcase('local_sum[%s,%s,%s]' % (widths, slices, length))
    def f(w):
        d = w.dim('d')
        ms = [w.mpa('ABCDE'[i], [(d, d)] * n) for i, n in enumerate(widths)]
        fn = w.fn('mparray.local_sum')
        if slices is None:
            w.rejects(fn, ms)
            w.rejects(fn, iter(ms))
        else:
            sl = [slice(*s) for s in slices]
            w.rejects(fn, ms, length=length, slices=sl)
            w.rejects(fn, iter(ms), length=length, slices=iter(sl))
            w.rejects(fn, ms, w.array('E', (d, d)), length, sl)


for _a in (([1, 2], None, None), ([2, 1], None, None), ([2, 2, 1], None, None), ([2, 2, 3], None, None), ([1, 1, 2], None, None),
           ([2, 2], [(0, 2)], 3), ([2], [(0, 2), (1, 3)], 3), ([2, 2, 2], [(0, 2), (1, 3)], 3), ([2, 2], [(0, 2), (1, 3), (2, 4)], 4),
           ([1, 2], [(0, 2), (1, 3)], 3), ([2, 2], [(0, 2), (1, 4)], 4), ([2, 2], [(0, 2), (3, 5)], 4), ([2, 2], [(0, 2), (1, 3)], None),
           ([1, 1], [(0, 1)], 2), ([1, 1, 1], [(0, 1), (1, 2)], 2), ([1, 1], [(0, 1), (2, 3)], 2), ([2, 2], [(0, 2), (0, 1)], 3),
           ([1, 2], [(0, 1), (1, 2)], 2), ([1, 1, 1, 1], [(0, 1), (1, 2), (2, 3)], 3)):
    _lsum(*_a)


def _lsumdim(n, width, bad, site, mm):
    @rcase('local_sum_dims[%d,%d,%d,%d,%s]' % (n, width, bad, site, mm))
    def f(w):
        x, y = MISMATCH[mm](w)
        ms = [w.mpa('ABCDE'[i], [(y, y) if (i, k) == (bad, site) else (x, x) for k in range(width)]) for i in range(n)]
        fn = w.fn('mparray.local_sum')
        E = w.array('E', (x, x))
        w.rejects(fn, ms, E)
        w.rejects(fn, ms, E, n + width, [slice(i + 1, i + 1 + width) for i in range(n)])


for _m in MISMATCH:
    for _a in ((2, 1, 0, 0), (2, 1, 1, 0), (3, 1, 1, 0), (2, 2, 1, 0), (2, 2, 0, 1), (3, 2, 1, 1), (3, 2, 2, 0)):
        _lsumdim(*_a, _m)


def _inject(L, pos, num, ten, types):
    @rcase('inject[%d,%s,%s,%s]' % (L, pos, num, ten))
    def f(w):
        d = w.dim('d')
        A = w.mpa('A', [(d, d)] * L)
        T = w.array('T', (d, d))
        mk = {'T': T, 'seq': [T, T], 'seqs': [[T], [T]], '3seqs': [[T], [T], [T]], 'Ts': [T, T], '3Ts': [T, T, T], None: None}
        w.rejects(w.fn('mparray.inject'), A, pos, num, mk[ten])


for _a in ((3, 1, None, 'T'), (3, (1, 1), (1, 1), 'Ts'), (3, (2, 1), (1, 1), 'Ts'), (3, (1, 2), (1,), 'Ts'),
           (3, (1, 2), (1, 1, 1), 'Ts'), (3, (1, 2), None, '3seqs'), (3, (1,), None, 'seqs'), (3, (1, 2), None, 'Ts'),
           (3, (1, 2), (1, None), 'Ts'), (3, (0, 1, 2), (1, 1, 1), 'Ts'),
           (3, (0, 2, 1), (1, 1, 1), '3Ts'), (3, (1, 2, 0), (1, 1, 1), '3Ts'), (4, (0, 2, 2), (1, 1, 1), '3Ts'), (3, (0, 2, 1), None, '3seqs'),
           (3, (4,), None, 'seq')):
    _inject(*_a, None)


# -- local tensors -------------------------------------------------------------------------------
@rcase('local_tensors')
def f(w):
    LT = w.fn('mpstruct.LocalTensors')
    C = w.fn('mparray.MPArray')
    D, d = w.dim('D'), w.dim('d')

    def t(n, l, r):
        return w.opaque(n, (l, d, r))
    bad = ([t('a', 1, 2), t('b', 3, 1)], [t('a', 1, 1), t('b', 2, 1)], [t('a', 1, 2), t('b', 1, 1)],
           [t('a', 1, D), t('b', D, D), t('c', D + 1, 1)], [t('a', 1, D), t('b', D + 1, D), t('c', D, 1)],
           [t('a', 1, D), t('b', 2 * D, D), t('c', D, 1)])
    for b in bad:
        w.rejects(LT, b)
        w.rejects(LT, iter(b))
        w.rejects(C, b)
        w.rejects(C, iter(b))
    ok = [t('a', 1, D), t('b', D, D), t('c', D, 1)]
    for cf in ((3, 3), (4, None), (-1, 3), (None, 4), (None, -1), (5, 7), (3, None)):
        w.rejects(LT, ok, cform=cf)


def _update(L, idx, mm):
    @rcase('lt_update_bonds[%d,%d,%s]' % (L, idx, mm))
    def f(w):
        x, y = MISMATCH[mm](w)
        d = w.dim('e')
        A = w.mpa('A', [(d,)] * L, bonds=[x] * (L - 1))
        pos = idx % L
        l, r = (1 if pos == 0 else x), (1 if pos == L - 1 else x)
        bad = [(l, d, y if r != 1 else 2), (y if l != 1 else 2, d, r), (l if l != 1 else 3, d, r if l == 1 else 7)]
        for sh in bad:
            if sh[0] == l and sh[2] == r:
                continue
            t = w.opaque('t', sh)
            k = keys(w, A)
            w.rejects(A.lt.update, idx, t)
            unchanged(w, A, *k, what='update')
            w.rejects(A.lt.__setitem__, idx, t)
            unchanged(w, A, *k, what='assignment')
        t = w.opaque('t', (x,))
        w.rejects(A.lt.update, idx, t)
        for far in (L, L + 2, -L - 1):
            w.rejects(A.lt.update, far, w.opaque('u', (l, d, r)))


for _L in (1, 2, 3):
    for _i in range(-_L, _L):
        for _m in ('2/3', 'd/d+1', '2/1'):
            _update(_L, _i, _m)


def _updsl(L, sl, n, mode):
    @rcase('lt_update_slice[%d,%s,%d,%s]' % (L, sl, n, mode))
    def f(w):
        d = w.dim('d')
        D = [w.dim('Ab%d' % (i + 1)) for i in range(L - 1)]
        A = w.mpa('A', [(d,)] * L, bonds=D)
        full = [1] + D + [1]
        idx = list(range(*slice(*sl).indices(L)))
        shapes = [[full[i], d, full[i + 1]] for i in idx]
        while len(shapes) < n:
            shapes.append(list(shapes[-1]) if shapes else [1, d, 1])
        shapes = shapes[:n]
        if mode == 'left':
            shapes[0][0] = shapes[0][0] + 1
        elif mode == 'right':
            shapes[-1][2] = shapes[-1][2] + 1
        elif mode == 'inner':
            shapes[0][2] = shapes[0][2] + 1
        ts = [w.opaque('t%d' % i, s) for i, s in enumerate(shapes)]
        k = keys(w, A)
        w.rejects(A.lt.update, slice(*sl), ts)
        unchanged(w, A, *k, what='slice update')
        w.rejects(A.lt.__setitem__, slice(*sl), ts)
        unchanged(w, A, *k, what='slice assignment')
        w.rejects(A.lt.update, slice(*sl), ts, canonicalization=[None] * n)
        unchanged(w, A, *k, what='slice update')


for _a in ((3, (0, 2), 1, 'count'), (3, (0, 2), 3, 'count'), (3, (None,), 2, 'count'), (3, (None,), 4, 'count'), (2, (0, 1), 2, 'count'),
           (3, (1, 3), 1, 'count'), (4, (0, 4, 2), 1, 'count'), (4, (0, 4, 2), 3, 'count'), (3, (0, 2), 2, 'left'), (3, (0, 2), 2, 'right'),
           (3, (0, 2), 2, 'inner'), (3, (1, 3), 2, 'left'), (3, (1, 3), 2, 'right'), (3, (1, 3), 2, 'inner'), (3, (None,), 3, 'inner'),
           (2, (None,), 2, 'left'), (2, (None,), 2, 'right'), (4, (0, 4, 2), 2, 'left'), (4, (0, 4, 2), 2, 'inner'),
           (4, (1, 4, 2), 2, 'right'), (3, (2, None), 2, 'count'), (3, (1, 2), 1, 'left'), (3, (1, 2), 1, 'right'),
           (4, (3, None, -1), 3, 'count')):
    _updsl(*_a)


@rcase('lt_update_canonicalization_count')
def f(w):
    d = w.dim('d')
    A = w.mpa('A', [(d,)] * 3, bonds=[w.dim('D'), w.dim('D')])
    ts = [w.opaque('t%d' % i, l.shape) for i, l in enumerate(w.lts(A))]
    for n in (1, 2, 4):
        k = keys(w, A)
        w.rejects(A.lt.update, slice(None), ts, canonicalization=[None] * n)
        unchanged(w, A, *k, what='slice update')
        w.rejects(A.lt.update, slice(None), ts, canonicalization=['left'] * n)


# -- compression, eigenvectors -------------------------------------------------------------------
@rcase('compress_arguments')
def f(w):
    A = w.mpa('A', [(2,), (3,), (2,)])
    for m in (A.compress, A.compression):
        w.rejects(m, method='foo')
        w.rejects(m, 'foo', rank=2)
        w.rejects(m, method='svd', direction='up')
        w.rejects(m, method='svd', rank=2, direction='foo')
        w.rejects(m, method='svd', rank=0)
        w.rejects(m, method='svd', rank=-1)
        w.rejects(m, method='svd', rank=0, direction='left')
        w.rejects(m, method='svd', rank=0, direction='right')
        for rel in (-0.5, 1.5, 2.):
            for di in ('left', 'right', None):
                w.rejects(m, method='svd', relerr=rel, direction=di)
        w.rejects(m, method='var', num_sweeps=1)
        w.rejects(m, method='var', num_sweeps=1, startmpa=None, rank=None)


@rcase('eig_arguments')
def f(w):
    eig, es = w.fn('linalg.eig'), w.fn('linalg.eig_sum')
    H = w.mpa('H', [(2, 2)] * 3, bonds=[2, 2])
    v2, v3, v4 = (w.mpa('v%d' % n, [(2,)] * n, bonds=[2] * (n - 1)) for n in (2, 3, 4))
    u3 = w.mpa('u3', [(2,), (3,), (2,)], bonds=[2, 2])
    P4 = w.mpa('p4', [(2,)] * 4, bonds=[2] * 3)
    H4 = w.mpa('G', [(2, 2)] * 4, bonds=[2] * 3)

    def solver(op, *a, **k):
        raise Violation('the eigensolver is reached with operands that do not fit')
    for vs in (3, 4, 7):
        w.rejects(eig, H, 1, vs, startvec=v3)
        w.rejects(es, [H], 1, vs, startvec=v3)
    w.rejects(eig, H, 1, 1)
    w.rejects(es, [H], 1, 1)
    w.rejects(eig, H, 1, 1, startvec_rank=1)
    w.rejects(es, [H], 1, 1, startvec_rank=1)
    w.rejects(es, [H, H4], 1, 1, startvec=v3)
    w.rejects(es, [H, P4], 1, 1, startvec=v3)
    w.rejects(es, [H4, H], 1, 1, startvec=v4)
    for sv in (u3,):
        w.rejects(eig, H, 1, 1, startvec=sv)
        w.rejects(es, [H], 1, 1, startvec=sv)


# -- factory -------------------------------------------------------------------------------------
@rcase('factory_arguments')
def f(w):
    rm, z, eye, dm, rlh = (w.fn('factory.' + n) for n in ('random_mpa', 'zero', 'eye', 'diagonal_mpa', 'random_local_ham'))
    rs = npm.RNG(3, name='caller')
    for force in (False, True):
        for fn, kw in ((rm, dict(randstate=rs)), (z, {})):
            w.rejects(fn, 3, [(2,), (2,)], 2, force_rank=force, **kw)
            w.rejects(fn, 3, [(2,)] * 4, 2, force_rank=force, **kw)
            w.rejects(fn, 3, 2, [2], force_rank=force, **kw)
            w.rejects(fn, 3, 2, [2, 2, 2], force_rank=force, **kw)
            w.rejects(fn, 3, 2, [2, 2, 2, 2], force_rank=force, **kw)
            w.rejects(fn, 2, 2, [], force_rank=force, **kw)
            w.rejects(fn, 2, [(2, 3)], (2,), force_rank=force, **kw)
    w.rejects(eye, 3, (2, 2))
    w.rejects(eye, 3, (2, 2, 2, 2))
    w.rejects(eye, 2, [2])
    w.rejects(eye, 1, iter([2, 3]))
    w.rejects(dm, w.array('a', (3,)), 0)
    w.rejects(dm, w.array('b', (2, 2)), 2)
    w.rejects(dm, w.array('b', (2, 2)), 1)
    w.rejects(rlh, 2, 2, 3, randstate=rs)
    w.rejects(rlh, 1, 2, 2, randstate=rs)


# -- reductions ----------------------------------------------------------------------------------
def _red(fname, legs):
    def mk(w, L=3):
        return w.mpa('A', [(2, 2)[:legs]] * L, bonds=[2] * (L - 1))

    @rcase('%s_arguments' % fname)
    def f(w):
        fn = w.fn('mpsmpo.' + fname)
        for kw in (dict(), dict(startsites=[0]), dict(width=2, startsites=[0], stopsites=[2]), dict(stopsites=[2]),
                   dict(width=2, stopsites=[2]), dict(startsites=[0, 1], stopsites=[2]), dict(startsites=[0], stopsites=[2, 3]),
                   dict(width=2, startsites=[2]), dict(width=1, startsites=[3]), dict(width=1, startsites=[-1]),
                   dict(startsites=[0], stopsites=[4]), dict(startsites=[1], stopsites=[1]), dict(startsites=[2], stopsites=[1]),
                   dict(startsites=[-2], stopsites=[2]), dict(startsites=[0, 2], stopsites=[1, 5]), dict(width=2, startsites=[0, 2]),
                   dict(width=0, startsites=[1])):
            w.rejects(fn, mk(w), **kw)
            kw = {k: iter(v) if isinstance(v, list) else v for k, v in kw.items()}
            w.rejects(fn, mk(w), **kw)

    @rcase('%s_legs' % fname)
    def f(w):
        fn = w.fn('mpsmpo.' + fname)
        for sh in ([(2,)] * 3, [(2, 2)] * 3, [(2, 2, 2)] * 3, [(2, 2), (2,), (2, 2)], [(2,), (2, 2), (2,)], [(2, 2), (2, 2, 2), (2, 2)]):
            if all(len(s) == legs for s in sh):
                continue
            A = w.mpa('A', sh, bonds=[2, 2])
            w.rejects(fn, A, width=2)
            w.rejects(fn, A, startsites=[0], stopsites=[3])


_red('reductions_mpo', 2)
_red('reductions_pmps', 2)
_red('reductions_mps_as_pmps', 1)
_red('reductions_mps_as_mpo', 1)


@rcase('state_arguments')
def f(w):
    r = w.fn('mpsmpo.reductions')
    A1, A2, A3 = (w.mpa('A%d' % n, [(2, 2, 2)[:n]] * 3, bonds=[2, 2]) for n in (1, 2, 3))
    for mode in ('auto', 'mpo', 'foo', None):
        w.rejects(r, A2, mode, width=1)
    red = w.fn('mpsmpo.pmps_reduction')
    for sup in ([], [3], [-1], [0, 3], [-1, 1], [4, 5]):
        w.rejects(red, A2, sup)
    w.rejects(w.fn('mpsmpo.mps_to_pmps'), A2)
    w.rejects(w.fn('mpsmpo.mps_to_mpo'), A2)
    w.rejects(w.fn('mpsmpo.mps_to_pmps'), A3)
    w.rejects(w.fn('mpsmpo.pmps_to_mps'), A1)
    w.rejects(w.fn('mpsmpo.pmps_to_mps'), A2)
    B = w.mpa('B', [(2, 1), (2, 2), (2, 1)], bonds=[2, 2])
    w.rejects(w.fn('mpsmpo.pmps_to_mps'), B)
    B = w.mpa('B', [(1, 2), (2, 1)], bonds=[2])
    w.rejects(w.fn('mpsmpo.pmps_to_mps'), B)
    B = w.mpa('B', [(2, 1, 1), (2, 1)], bonds=[2])
    w.rejects(w.fn('mpsmpo.pmps_to_mps'), B)
    w.rejects(w.fn('mpsmpo.pmps_dm_to_array'), A1)
    w.rejects(w.fn('mpsmpo.pmps_dm_to_array'), A3)


# -- POVMs ---------------------------------------------------------------------------------------
@rcase('mppovm_construction')
def f(w):
    C = w.fn('povm.mppovm.MPPovm')
    LT = w.fn('mpstruct.LocalTensors')
    for sh in ([(2, 2)], [(2, 2, 2, 2)], [(2, 2, 3)], [(2, 3, 2)], [(2, 2, 2), (2, 2)], [(2, 2, 2), (3, 2, 3)], [(2,)],
               [(2, 2, 2), (2, 2, 2), (2, 2, 1)], [(3, 1, 2), (2, 2, 2)]):
        A = w.mpa('A', sh, bonds=[2] * (len(sh) - 1))
        w.rejects(C, w.lts(A))
        w.rejects(C, w.I.native(LT, (w.lts(A),), {}))
    for d in ((2, 3, 3), (2, 2), (2, 2, 2)):
        if len(d) == 2:
            w.rejects(C.from_local_povm, w.array('E', d), 2)
    # single outcomes are stored in eight bits, 255 denoting "no outcome"
    for sh in ([(256, 2, 2)], [(2, 2, 2), (256, 2, 2)], [(300, 2, 2), (2, 2, 2)]):
        w.rejects(C, w.lts(w.mpa('A', sh, bonds=[2] * (len(sh) - 1))))
    w.rejects(C.from_local_povm, w.array('E', (2, 3, 2)), 2)
    w.rejects(C.from_local_povm, w.array('E', (2, 2, 2)), 0)


@rcase('mppovm_embed')
def f(w):
    M = povm(w, 'A', [2, 3], [2, 3], [2])
    for N, s, ld in ((1, 0, 2), (2, 1, 2), (3, 2, 2), (3, 3, 2), (4, 5, 2), (3, -1, 2), (4, -2, 3), (3, 0, [2, 3]), (3, 0, [2, 3, 2, 2]),
                     (3, -3, 2), (2, 0, [2]), (2, -1, 2), (3, 1, (2, 2, 3, 2))):
        w.rejects(M.embed, N, s, ld)
        if hasattr(ld, '__iter__'):
            w.rejects(M.embed, N, s, iter(ld))


@rcase('mppovm_block_repeat')
def f(w):
    M = povm(w, 'A', [2, 2], [2, 3], [2])
    w.rejects(M.block, 3)
    w.rejects(M.repeat, 3)
    w.rejects(M.repeat, 1)
    w.rejects(M.repeat, 5)
    w.rejects(M.repeat, 0)
    M = povm(w, 'A', [2, 2, 2], [2, 2, 2], [1, 2])
    w.rejects(M.repeat, 5)
    w.rejects(M.repeat, 2)
    M = povm(w, 'A', [2, 2, 2], [2, 2, 2], [2, 1])
    w.rejects(M.repeat, 4)
    w.rejects(M.repeat, 1)
    LC = w.fn('povm.mppovm.MPPovmList')
    w.rejects(LC, [M, povm(w, 'B', [2, 2], [2, 2], [2])])
    w.rejects(LC, [povm(w, 'B', [2, 2], [2, 2], [2]), M])
    w.rejects(LC, [M, M, povm(w, 'B', [2], [2])])


def _pmf(mode):
    @rcase('pmf_lengths[%s]' % mode)
    def f(w):
        npm.EV.assume_nonneg = True
        M = povm(w, 'A', [2, 3], [2, 2], [2])
        LC = w.fn('povm.mppovm.MPPovmList')
        lst = w.call(LC, [M, M])
        for n in (1, 3):
            S = state(w, 'B', [2] * n, mode, bonds=[2] * (n - 1))
            w.rejects(M.pmf, S, mode)
            for impl in ('auto', 'default') + (('pmps-ltr', 'pmps-symm') if mode == 'pmps' else ()):
                w.rejects(M.pmf_as_array, S, mode, impl=impl)
            w.rejects(lst.pmf, S, mode)
            w.rejects(lst.pmf_as_array, S, mode)
            w.rejects(M.sample, npm.RNG(3, name='caller'), S, 2, mode=mode)
            w.rejects(M.sample, npm.RNG(3, name='caller'), S, 2, method='direct', mode=mode)
        S = state(w, 'B', [2], mode)
        w.rejects(M.expectations, S, mode)

    @rcase('pmf_dims[%s]' % mode)
    def f(w):
        npm.EV.assume_nonneg = True
        M = povm(w, 'A', [2, 3], [2, 2], [2])
        for hd in ([2, 3], [3, 2], [2, 4]):
            S = state(w, 'B', hd, mode, bonds=[2])
            w.rejects(M.pmf, S, mode)
            for impl in ('auto', 'default') + (('pmps-ltr', 'pmps-symm') if mode == 'pmps' else ()):
                w.rejects(M.pmf_as_array, S, mode, impl=impl)
            w.rejects(M.expectations, S, mode)

    @rcase('pmf_options[%s]' % mode)
    def f(w):
        npm.EV.assume_nonneg = True
        M = povm(w, 'A', [2, 3], [2, 2], [2])
        S = state(w, 'B', [2, 2], mode, bonds=[2])
        w.rejects(M.pmf_as_array, S, mode, impl='foo')
        w.rejects(M.pmf, S, 'foo')
        w.rejects(M.expectations, S, 'foo')
        w.rejects(M.block_pmfs_as_array, S, 'foo')
        w.rejects(M.sample, npm.RNG(3, name='caller'), S, 2, method='foo', mode=mode)
        A3 = w.mpa('C', [(2, 2, 2)] * 2, bonds=[2])
        w.rejects(M.pmf, A3)
        w.rejects(M.expectations, A3)
        A12 = w.mpa('C', [(2,), (2, 2)], bonds=[2])
        w.rejects(M.pmf, A12)

    @rcase('mppovmlist_counts[%s]' % mode)
    def f(w):
        npm.EV.assume_nonneg = True
        ms = [povm(w, n, [2, 3], [2, 2], [2]) for n in 'AC']
        lst = w.call(w.fn('povm.mppovm.MPPovmList'), ms)
        S = [state(w, n, [2, 2], mode, bonds=[2]) for n in 'BDE']
        for k in (0, 1, 3):
            w.rejects(lst.pmfs_as_array, S[:k], mode)
            w.rejects(lst.pmfs_as_array, iter(S[:k]), mode)
            w.rejects(lst.pmfs_as_array, S[:k], mode, asarray=True)
        T = state(w, 'F', [2] * 4, mode, bonds=[2] * 3)
        w.rejects(lst.block_pmfs_as_array, T, mode)
        w.rejects(lst.block_pmfs_as_array, S[0], mode)
        w.rejects(lst.block_pmfs_as_array, T, mode, width=2, startsites=[0])
        w.rejects(lst.block_pmfs_as_array, T, mode, width=2, startsites=[0, 1, 2])
        w.rejects(lst.block_pmfs_as_array, T, mode, width=1, startsites=[0, 1])


for _m in ('mps', 'mpdo', 'pmps'):
    _pmf(_m)


def samples(w, n, k):
    return real.zeros((n, k), dtype=real.uint8)


@rcase('samples')
def f(w):
    M = povm(w, 'A', [2, 1, 3], [2, 2, 2], [2, 2])
    M2 = povm(w, 'B', [3, 2], [2, 2], [2])
    LC = w.fn('povm.mppovm.MPPovmList')
    lst = w.call(LC, [M, M])
    for k in (1, 3, 4):
        s = samples(w, 4, k)
        w.rejects(M.pack_samples, s)
        w.rejects(M.est_pmf, s)
        w.rejects(M.est_lfun, None, None, s)
        w.rejects(M.est_lfun, real.ones(6), None, s)
        w.rejects(M.est_pmf_from, M, s)
    s = samples(w, 4, 2)
    w.rejects(M.pack_samples, samples(w, 4, 2)[0])
    for bad in ([2, 0], [0, 3], [255, 0], [0, 255]):
        t = samples(w, 3, 2)
        t[1] = bad
        w.rejects(M.pack_samples, t)
    w.rejects(M.unpack_samples, real.array([0, 6]))
    w.rejects(M.unpack_samples, real.array([7, 1]))
    w.rejects(M.unpack_samples, real.array([1, -1]))
    w.rejects(M.unpack_samples, s)
    for n in (1, 5, 7):
        w.rejects(M.est_lfun, real.ones(n), None, s)
    w.rejects(M.est_lfun, real.ones(6), None, s, weights=real.ones(3))
    w.rejects(M.est_lfun, real.ones(6), None, s, weights=real.ones(5))
    w.rejects(M.est_lfun, real.ones((6, 1)), None, s)
    w.rejects(M.est_lfun, real.ones(3), [lambda x: x[:, 0]] * 2, s)
    w.rejects(M.est_pmf_from, M2, samples(w, 4, 2))
    w.rejects(M2.est_pmf_from, M, s)
    for k in (1, 3):
        w.rejects(lst.pack_samples, [s] * k)
        w.rejects(lst.unpack_samples, [s] * k)
        w.rejects(lst.est_pmf, [s] * k)
        w.rejects(lst.est_lfun, [real.ones(6)] * 2, None, [s] * k)
        w.rejects(lst.est_lfun, [real.ones(6)] * k, None, [s] * 2)
        w.rejects(lst.est_lfun, [real.ones(1)] * 2, [[lambda x: x[:, 0]]] * k, [s] * 2)
        w.rejects(lst.est_pmf_from, lst, [s] * k)
        w.rejects(lst.est_lfun_from, lst, [real.ones((2, 3))] * 2, [s] * k)
        w.rejects(lst.est_lfun_from, lst, [real.ones((2, 3))] * k, [s] * 2)
        w.rejects(M.est_pmf_from_mpps, lst, [s] * k)
        S = state(w, 'S', [2, 2, 2], 'mps', bonds=[2, 2])
        w.rejects(lst.lfun, [real.ones(6)] * k, None, S, 'mps')
        w.rejects(lst.lfun, [real.ones(1)] * 2, [[lambda x: x[:, 0]]] * k, S, 'mps')
        w.rejects(lst.lfun_from, lst, [real.ones((2, 3))] * k, S, 'mps')
        w.rejects(lst.lfun_from, lst, [real.ones((2, 3))] * 2, S, 'mps', other_weights=real.ones(k))
    w.rejects(lst.est_lfun_from, lst, [real.ones((3, 2))] * 2, [s] * 2)
    w.rejects(lst.est_lfun_from, lst, [real.ones(6)] * 2, [s] * 2)
    w.rejects(lst.est_pmf_from, w.call(LC, [M2]), [s])


@rcase('match_elems')
def f(w):
    M = povm(w, 'A', [2, 3], [2, 2], [2])
    for hd in ([2, 3], [3, 2], [1, 2], [2], [2, 2, 2]):
        M2 = povm(w, 'B', [2] * len(hd), hd, [2] * (len(hd) - 1))
        w.rejects(M.match_elems, M2)
        w.rejects(M2.match_elems, M)
    w.rejects(M.match_elems, M, exclude_dup=('foo',))


@rcase('localpovm_concat')
def f(w):
    C = w.fn('povm.localpovm.POVM')
    P = [w.call(C, w.array(n, (2, 3, 3))) for n in 'ABC']
    fn = w.fn('povm.localpovm.concat')
    w.rejects(fn, P[:2], (.5, .25, .25))
    w.rejects(fn, P, (.5, .5))
    w.rejects(fn, P[:1], (.5, .5))
    w.rejects(fn, P[:2], (1.,))
    w.rejects(fn, P[:2], (.5, .25))
    Q = w.call(C, w.array('D', (2, 2, 2)))
    w.rejects(w.fn('povm.localpovm.pauli_parts'), 1)


# -- dense helpers -------------------------------------------------------------------------------
@rcase('dense_helpers')
def f(w):
    bd, pt = w.fn('utils.extmath.block_diag'), w.fn('utils.extmath.partial_trace')
    d, e = w.dim('d'), w.dim('e')
    for s1, s2, ax in (((d, 2), (e, 3), (0,)), ((d, 2, e), (e, 3, d), (0, -1)), ((d, 2, e), (e, 1, d), (0, 2)), ((d, 1, e), (e, 2, d), (0, 2)),
                       ((d, d), (d, d, d), (0, 1)), ((d, 1), (e, 2), (0,)), ((d, d + 1), (e, d), (0,)), ((d, e), (d, e), (0, 2))):
        w.rejects(bd, [w.opaque('a', s1), w.opaque('b', s2)], axes=ax)
    a = w.opaque('a', (d, e, d, e))
    w.rejects(pt, w.opaque('a', (d, e, d)), [0])
    w.rejects(pt, a, [2])
    w.rejects(pt, a, [0, 5])
    N = w.fn('_named_ndarray.named_ndarray')
    w.rejects(N, a, ['a', 'b', 'c'])
    w.rejects(N, a, ['a', 'b', 'c', 'd', 'e'])
    w.rejects(N, a, ['a', 'b', 'a', 'd'])
    n = w.call(N, a, ['a', 'b', 'c', 'd'])
    w.rejects(n.rename, [('x', 'y')])
    w.rejects(n.rename, [('a', 'b')])
    w.rejects(n.to_array, ['a', 'b', 'c'])
    w.rejects(n.to_array, ['a', 'b', 'c', 'x'])
    w.rejects(n.to_array, ['a', 'b', 'c', 'c'])
    m = w.call(N, w.opaque('m', (2, 3)), ['u', 'v'])
    m2 = w.call(N, w.opaque('k', (3, 2)), ['p', 'q'])
    m3 = w.call(N, w.opaque('k', (2, 3)), ['u', 'q'])
    w.rejects(m.tensordot, m2, [('u', 'p')])
    w.rejects(m.tensordot, m2, [('x', 'p')])
    w.rejects(m.tensordot, m2, [('u', 'x')])
    w.rejects(m.tensordot, m3, [('v', 'q')])


@rcase('cyclic_hamiltonian')
def f(w):
    E0 = w.fn('utils.physics.cXY_E0')
    for n in (3, 4, 5, 8, 12):
        w.rejects(E0, n, 0.5)
