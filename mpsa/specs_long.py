"""Longer chains and more summands: the definitions of the other modules beyond their usual sizes.

Every operation is analysed for one or two chains of seven to ten sites, in fewer operand contexts."""
from .cases import CASES
from . import specs_core as c, specs_more as m, specs_algo as a, specs_povm as p, specs_io as i

T = 'long'

for legs in ([1] * 9, [2] * 7, [2, 1, 0, 2, 1, 2, 1, 2]):
    c._arith(legs, T)
    c._inner(legs, T)
    c._unary(legs, T)
    c._dense(legs, T)
    c._norm(legs, T)
    i._io(legs, T)
for left, right in ((None, None), ('afull', None), (None, 'afull'), (3, None), (None, 4), (2, 6), (5, 6), (-2, None), (None, -3)):
    c._canon([1] * 8, left, right, T)
c._canon([2] * 7, 3, 4, T)
for L in (7, 9):
    c._dot([2] * L, [1] * L, (-1, 0), T, True)
    c._dot([2] * L, [2] * L, (-1, 0), T, True)
    c._dot([3] * L, [2] * L, ((0, 2), (1, 0)), T)
    c._ptrace([2] * L, (0, 1), T)
    c._ptrace([3] * L, (-1, 0), T)
    c._sum([2] * L, None, T)
    c._sandwich(L, T)
    c._sum([2] * L, 1, T)
    c._transpose([3] * L, (1, 2, 0), T)
    c._get([1] * L, tuple(k % 2 for k in range(L)), T)
    c._diag([2] * L, 0, T)
for args in ((8, 2, 0), (8, 2, 3), (8, 2, 6), (8, 5, 2), (2, 8, 4), (8, 7, 1)):
    c._partialdot(*args, 2, 2, (-1, 0), T)
c._axis_iter([1] * 4, 0, T)
c._axis_iter([2, 2, 3, 2], 1, T)
c._splits([2] * 4, 2, T)
c._group([1] * 8, 2, T)
c._group([2] * 9, 3, T)
c._prune([1, 0, 0, 1, 0, 2, 0, 0, 1], T)

for args in ((8, 0, 2), (8, 3, 2), (8, 6, 2), (9, 2, 4)):
    m._embed(*args, 2, False, T)
    m._embed(*args, 2, True, T)
for n, wd in ((8, 1), (7, 2), (6, 3), (10, 1)):
    m._lsum(n, wd, False, T)
m._lsum(7, 2, True, T)
m._lsum_gen(9, ((0, 2), (2, 4), (4, 6), (6, 9)), T)
m._lsum_gen(8, ((1, 3), (0, 8), (5, 6)), T)
m._inject(7, (0, 3, 7), (1, 2, 1), None, T)
m._inject(6, 4, 5, None, T)
m._cyc(6, T)
m._conv(7, T)
for wh in m.RED:
    m._red(wh, 6, dict(width=2), [(k, k + 2) for k in range(5)], T)
    m._red(wh, 6, dict(startsites=[4, 0, 2], stopsites=[6, 3, 5]), [(4, 6), (0, 3), (2, 5)], T)
m._pmpsred(7, [0, 1, 4, 6], T)
m._pmpsred(7, [2, 3, 5], T)

a._svd_cases(6, 'eq', [1] * 6, T)
a._var(5, [1] * 5, 'eq', 2, [2] * 4, T)
a._spsum(7, 3, 3, True, T)
a._spsum(6, 2, 2, True, T)
for vs in (1, 2):
    a._eig(5, vs, 1, 'o', 2, T)
    a._eig(5, vs, 1, 'so', 2, T, which='eig_sum')

p._maps([2, 1, 2, 1, 2, 2], [2] * 6, [1, 2, 1, 2, 1], [2] * 5, T)
p._expect(2, 6, T)
p._embed(7, 3, 2, T)
p._block(7, 2, T)
p._repeat(2, 8, T)
p._repeat(3, 8, T)

# where the analysis takes exponentially long in the number of sites, the usual sizes have to do
_SLOW = ('pad_ranks_default[', 'pad_ranks[2', 'from_array[2', 'from_array_global[2', 'from_array_virtual[2', 'roundtrip[2', 'dump_modify[2',
         'normdist[2222222]')
CASES[:] = [k for k in CASES if not (k.tier == T and k.cid.startswith(_SLOW))]
