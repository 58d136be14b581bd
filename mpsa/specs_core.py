"""Meaning of the array operations of mpnum.mparray / mpnum.factory on represented arrays."""
import itertools
import operator
from . import tn, npm
from .npm import Arr
from .cases import case, ALL, _SEEN
from .world import Violation


# -- vocabulary -------------------------------------------------------------------------------
def phys(w, legs, tag='d'):
    return [tuple(w.dim('%s%d_%d' % (tag, i, j)) for j in range(n)) for i, n in enumerate(legs)]


def ein(ins, out, *arrs):
    """Generalised einsum on abstract arrays with hashable index labels."""
    arrs = [npm.arr_of(a) for a in arrs]
    return Arr(tn.einsum([list(i) for i in ins], list(out), [a.val for a in arrs]),
               npm.promote(*[a.dtype for a in arrs]))


def labels(legs, tag):
    """Label of every axis of a dense array, site by site."""
    return [[(tag, i, j) for j in range(n)] for i, n in enumerate(legs)]


def flat(xs):
    return [x for s in xs for x in s]


def legs_of(shapes):
    return [len(s) for s in shapes]


L1 = [[1], [2], [1, 1], [2, 2], [1, 1, 1], [2, 2, 2], [2, 0, 1], [1, 3, 2]]
LT = [[0], [3], [0, 1], [1, 1, 1, 1], [2, 1, 0, 2], [2, 2, 2, 2], [1, 1, 1, 1, 1]]


def legsets():
    for l in L1:
        yield l, 'quick'
    for l in LT:
        yield l, 'thorough'


def nm(legs):
    return ''.join(map(str, legs))


# =============================================================================================
# C03  linear combinations
# =============================================================================================
def _arith(legs, tier):
    n = nm(legs)
    L = len(legs)

    @case('add[%s]' % n, 'C03', tier=tier)
    def f(w):
        A, B = w.mpa('A', phys(w, legs)), w.mpa('B', phys(w, legs))
        want = w.D(A) + w.D(B)
        rk = [a + b for a, b in zip(A.ranks, B.ranks)]
        r = w.call(operator.add, A, B)
        w.result(r, want, ranks=rk, what='A + B', f=type(A).__add__)

    @case('sub[%s]' % n, 'C03', tier=tier)
    def f(w):
        A, B = w.mpa('A', phys(w, legs)), w.mpa('B', phys(w, legs))
        want = w.D(A) - w.D(B)
        rk = [a + b for a, b in zip(A.ranks, B.ranks)]
        w.result(w.call(operator.sub, A, B), want, ranks=rk, what='A - B', f=type(A).__sub__)

    @case('add3[%s]' % n, 'C03', tier=tier)
    def f(w):
        A, B, C = [w.mpa(x, phys(w, legs)) for x in 'ABC']
        want = w.D(A) + w.D(B) - w.D(C)
        w.result(w.call(operator.sub, w.call(operator.add, A, B), C), want, what='A + B - C', f=type(A).__add__)

    @case('selfadd[%s]' % n, 'C03', tier=tier)
    def f(w):
        A = w.mpa('A', phys(w, legs))
        want = w.D(A) * 2
        w.result(w.call(operator.add, A, A), want, what='A + A', f=type(A).__add__)

    for op, fn, meth in (('neg', operator.neg, '__neg__'), ('pos', operator.pos, '__pos__')):
        @case('%s[%s]' % (op, n), 'C03', tier=tier)
        def f(w, op=op, fn=fn, meth=meth):
            A = w.mpa('A', phys(w, legs))
            want = w.D(A) * (-1 if op == 'neg' else 1)
            w.result(w.call(fn, A), want, ranks=A.ranks, what=op, f=getattr(type(A), meth))

    for cn in ('B', '2', '-1.5', '1j', '0'):
        def cval(w, cn=cn):
            return w.scalar('B') if cn == 'B' else eval(cn)

        @case('mul[%s,%s]' % (n, cn), 'C03', tier=tier)
        def f(w, cval=cval):
            A = w.mpa('A', phys(w, legs))
            c = cval(w)
            want = w.D(A) * c
            w.result(w.call(operator.mul, A, c), want, ranks=A.ranks, what='A * c', f=type(A).__mul__)

        @case('rmul[%s,%s]' % (n, cn), 'C03', tier=tier)
        def f(w, cval=cval):
            A = w.mpa('A', phys(w, legs))
            c = cval(w)
            want = w.D(A) * c
            w.result(w.call(operator.mul, c, A) if not isinstance(c, Arr) else w.call(A.__rmul__, c), want,
                     ranks=A.ranks, what='c * A', f=type(A).__rmul__)

        @case('imul[%s,%s]' % (n, cn), 'C03', tier=tier)
        def f(w, cval=cval):
            A = w.mpa('A', phys(w, legs))
            B = w.call(A.copy)
            c = cval(w)
            want = w.D(A) * c
            r = w.call(operator.imul, A, c)
            w.require(r is A, 'A *= c does not return A', w.locate(type(A).__imul__))
            w.result(A, want, ranks=B.ranks, what='A *= c', f=type(A).__imul__, fresh=False, modified=('A',))
        if cn != '0':
            @case('div[%s,%s]' % (n, cn), 'C03', tier=tier)
            def f(w, cval=cval):
                A = w.mpa('A', phys(w, legs))
                c = cval(w)
                want = w.D(A) * (1 / c)
                w.result(w.call(operator.truediv, A, c), want, ranks=A.ranks, what='A / c', f=type(A).__truediv__)

            @case('idiv[%s,%s]' % (n, cn), 'C03', tier=tier)
            def f(w, cval=cval):
                A = w.mpa('A', phys(w, legs))
                c = cval(w)
                want = w.D(A) * (1 / c)
                r = w.call(operator.itruediv, A, c)
                w.require(r is A, 'A /= c does not return A', w.locate(type(A).__itruediv__))
                w.result(A, want, what='A /= c', f=type(A).__itruediv__, fresh=False, modified=('A',))

    for k in (1, 2, 3):
        for wt in (False, True, 'array'):
            @case('sumup[%s,%d,%s]' % (n, k, ('w' if wt is True else wt) if wt else '-'), 'C03', tier=tier)
            def f(w, k=k, wt=wt):
                ms = [w.mpa('ABCDFGHIJKLMN'[i], phys(w, legs)) for i in range(k)]
                ws = w.array('w', (k,)) if wt == 'array' else [w.scalar('w%d' % i) for i in range(k)] if wt else None
                fn = w.fn('mparray.sumup')
                want = w.D(ms[0]) * (ws[0] if wt else 1)
                for i in range(1, k):
                    want = want + w.D(ms[i]) * (ws[i] if wt else 1)
                rk = [sum(x[1:], x[0]) for x in zip(*[m.ranks for m in ms])]
                r = w.call(fn, iter(ms), weights=ws) if wt else w.call(fn, iter(ms))
                w.result(r, want, ranks=rk, what='sumup', f=fn)


for _l, _t in legsets():
    _arith(_l, _t)


# =============================================================================================
# C04  contractions
# =============================================================================================
def expect_dot(w, DA, legsA, DB, legsB, axA, axB):
    """Site-wise contraction of legs axA (lists) of A with axB of B; result legs: rest of A, rest of B."""
    ia, ib = labels(legsA, 'a'), labels(legsB, 'b')
    out = []
    for i in range(len(legsA)):
        aa = [x % legsA[i] for x in axA]
        bb = [x % legsB[i] for x in axB]
        for x, y in zip(aa, bb):
            ib[i][y] = ia[i][x]
        out += [l for j, l in enumerate(ia[i]) if j not in aa]
        out += [l for j, l in enumerate(ib[i]) if j not in bb]
    return ein([flat(ia), flat(ib)], out, DA, DB)


def dot_dims(w, legsA, legsB, axA, axB):
    sa = [list(s) for s in phys(w, legsA, 'a')]
    sb = [list(s) for s in phys(w, legsB, 'b')]
    for i in range(len(legsA)):
        for x, y in zip(axA, axB):
            sb[i][y % legsB[i]] = sa[i][x % legsA[i]]
    return [tuple(s) for s in sa], [tuple(s) for s in sb]


def _dot(legsA, legsB, axes, tier, default=False):
    axA = [axes[0]] if isinstance(axes[0], int) else list(axes[0])
    axB = [axes[1]] if isinstance(axes[1], int) else list(axes[1])
    n = '%s,%s,%s%s' % (nm(legsA), nm(legsB), axes, 'd' if default else '')

    @case('dot[%s]' % n, 'C04', tier=tier)
    def f(w):
        sa, sb = dot_dims(w, legsA, legsB, axA, axB)
        A, B = w.mpa('A', sa), w.mpa('B', sb)
        want = expect_dot(w, w.D(A), legsA, w.D(B), legsB, axA, axB)
        fn = w.fn('mparray.dot')
        rk = [a * b for a, b in zip(A.ranks, B.ranks)]
        r = w.call(fn, A, B) if default else w.call(fn, A, B, axes=axes)
        w.result(r, want, ranks=rk, what='dot', f=fn,
                 legs=[a + b - 2 * len(axA) for a, b in zip(legsA, legsB)])


for _L in (1, 2, 3):
    _dot([2] * _L, [2] * _L, (-1, 0), 'quick', True)
    _dot([2] * _L, [1] * _L, (-1, 0), 'quick', True)
    _dot([1] * _L, [2] * _L, (-1, 0), 'quick')
    _dot([1] * _L, [1] * _L, (0, 0), 'quick')
    _dot([2] * _L, [2] * _L, ((0, 1), (1, 0)), 'quick')
    _dot([3] * _L, [2] * _L, (1, -1), 'quick')
    _dot([3] * _L, [3] * _L, ((0, -1), (2, 1)), 'quick')
    _dot([2] * _L, [3] * _L, ((-2, -1), (-1, 0)), 'quick')
    _dot([2] * _L, [2] * _L, (0, 0), 'quick')
    _dot([3] * _L, [3] * _L, ((0, 1, 2), (2, 0, 1)), 'quick')
    _dot([4] * _L, [3] * _L, ((3, 0, 1), (-1, -2, -3)), 'quick')
    _dot([2] * _L, [2] * _L, (-2, -2), 'quick')
    _dot([2] * _L, [2] * _L, (1, 1), 'thorough')
_dot([2, 1, 3], [1, 2, 2], (-1, 0), 'quick')
_dot([2, 2, 2, 2], [2, 2, 2, 2], (-1, 0), 'thorough')
_dot([3, 2, 3], [2, 3, 2], ((0, 1), (-1, 0)), 'thorough')


def _partialdot(LA, LB, start, legsA, legsB, axes, tier):
    axA = [axes[0]] if isinstance(axes[0], int) else list(axes[0])
    axB = [axes[1]] if isinstance(axes[1], int) else list(axes[1])

    @case('partialdot[%d,%d,%d,%d,%d,%s]' % (LA, LB, start, legsA, legsB, axes), 'C04', tier=tier)
    def f(w):
        L = max(LA, LB)
        sa = [list(s) for s in phys(w, [legsA] * LA, 'a')]
        sb = [list(s) for s in phys(w, [legsB] * LB, 'b')]
        oa, ob = (start, 0) if LA < LB else (0, start)
        for i in range(L):
            if 0 <= i - oa < LA and 0 <= i - ob < LB:
                for x, y in zip(axA, axB):
                    sb[i - ob][y % legsB] = sa[i - oa][x % legsA]
        A, B = w.mpa('A', [tuple(s) for s in sa]), w.mpa('B', [tuple(s) for s in sb])
        ia, ib = labels([legsA] * LA, 'a'), labels([legsB] * LB, 'b')
        out = []
        for i in range(L):
            ina, inb = 0 <= i - oa < LA, 0 <= i - ob < LB
            if ina and inb:
                aa, bb = [x % legsA for x in axA], [y % legsB for y in axB]
                for x, y in zip(aa, bb):
                    ib[i - ob][y] = ia[i - oa][x]
                out += [l for j, l in enumerate(ia[i - oa]) if j not in aa]
                out += [l for j, l in enumerate(ib[i - ob]) if j not in bb]
            elif ina:
                out += ia[i - oa]
            else:
                out += ib[i - ob]
        want = ein([flat(ia), flat(ib)], out, w.D(A), w.D(B))
        fn = w.fn('mparray.partialdot')
        w.result(w.call(fn, A, B, start, axes), want, what='partialdot', f=fn)
        if axes == (-1, 0):
            w.result(w.call(fn, A, B, start), want, what='partialdot with default axes', f=fn)


for _a in ((-1, 0),):
    for _args in ((3, 1, 0), (3, 1, 1), (3, 1, 2), (3, 2, 0), (3, 2, 1), (1, 3, 0), (1, 3, 1), (1, 3, 2), (2, 3, 1),
                  (2, 2, 0), (1, 1, 0), (2, 1, 1)):
        _partialdot(*_args, 2, 2, _a, 'quick')
_partialdot(2, 1, 0, 2, 1, (-1, 0), 'quick')
_partialdot(1, 3, 1, 2, 2, (0, 1), 'quick')
_partialdot(3, 1, 1, 2, 2, (0, 1), 'quick')
_partialdot(3, 2, 1, 3, 3, ((0, 2), (-1, 1)), 'quick')
_partialdot(1, 2, 1, 2, 3, ((0, 1), (-1, 0)), 'quick')
_partialdot(4, 2, 1, 2, 2, (-1, 0), 'thorough')
_partialdot(2, 4, 2, 2, 2, (-1, 0), 'thorough')


def _inner(legs, tier):
    n = nm(legs)

    @case('inner[%s]' % n, 'C04', tier=tier)
    def f(w):
        A, B = w.mpa('A', phys(w, legs)), w.mpa('B', phys(w, legs))
        DA, DB = w.D(A), w.D(B)
        la = flat(labels(legs, 'a'))
        want = ein([la, la], [], DA.conj(), DB)
        fn = w.fn('mparray.inner')
        w.result(w.call(fn, A, B), want, what='inner', f=fn)

    @case('innerself[%s]' % n, 'C04', tier=tier)
    def f(w):
        A = w.mpa('A', phys(w, legs))
        DA = w.D(A)
        la = flat(labels(legs, 'a'))
        fn = w.fn('mparray.inner')
        w.result(w.call(fn, A, A), ein([la, la], [], DA.conj(), DA), what='inner', f=fn)

    @case('localouter[%s]' % n, 'C04', tier=tier)
    def f(w):
        legsB = [x for x in reversed(legs)]
        A, B = w.mpa('A', phys(w, legs, 'a')), w.mpa('B', phys(w, legsB, 'b'))
        la, lb = labels(legs, 'a'), labels(legsB, 'b')
        want = ein([flat(la), flat(lb)], flat([a + b for a, b in zip(la, lb)]), w.D(A), w.D(B))
        fn = w.fn('mparray.localouter')
        rk = [a * b for a, b in zip(A.ranks, B.ranks)]
        w.result(w.call(fn, A, B), want, ranks=rk, what='localouter', f=fn)

    @case('chain[%s]' % n, 'C04', tier=tier)
    def f(w):
        legsB = [x for x in reversed(legs)]
        A, B, C = w.mpa('A', phys(w, legs, 'a')), w.mpa('B', phys(w, legsB, 'b')), w.mpa('C', phys(w, [1, 1], 'c'))
        la, lb, lc = labels(legs, 'a'), labels(legsB, 'b'), labels([1, 1], 'c')
        want = ein([flat(la), flat(lb), flat(lc)], flat(la) + flat(lb) + flat(lc), w.D(A), w.D(B), w.D(C))
        fn = w.fn('mparray.chain')
        w.result(w.call(fn, iter([A, B, C])), want, what='chain', f=fn,
                 ranks=tuple(A.ranks) + (1,) + tuple(B.ranks) + (1,) + tuple(C.ranks))

    @case('chain1[%s]' % n, 'C04', tier=tier)
    def f(w):
        A = w.mpa('A', phys(w, legs, 'a'))
        fn = w.fn('mparray.chain')
        w.result(w.call(fn, [A]), w.D(A), what='chain', f=fn, ranks=A.ranks)


for _l, _t in legsets():
    _inner(_l, _t)

def _sandwich(_L, tier):
    for _two in (False, True):
        @case('sandwich[%d,%s]' % (_L, _two), 'C04', tier=tier)
        def f(w, L=_L, two=_two):
            d, e = phys(w, [1] * L, 'd'), phys(w, [1] * L, 'e')
            if not two:
                e = d
            A = w.mpa('A', [(e[i][0], d[i][0]) for i in range(L)])
            B = w.mpa('B', d)
            C = w.mpa('C', e) if two else B
            la = [(('e', i), ('d', i)) for i in range(L)]
            want = ein([flat(la), [('d', i) for i in range(L)], [('e', i) for i in range(L)]], [],
                       w.D(A), w.D(B), w.D(C).conj())
            fn = w.fn('mparray.sandwich')
            r = w.call(fn, A, B, C) if two else w.call(fn, A, B)
            w.result(r, want, what='sandwich', f=fn)

    @case('inner_prod_mps[%d]' % _L, 'C04', tier=tier)
    def f(w, L=_L):
        d = phys(w, [1] * L, 'd')
        A, B = w.mpa('A', d, bonds=[1] * (L - 1)), w.mpa('B', d)
        la = flat(labels([1] * L, 'a'))
        fn = w.fn('special.inner_prod_mps')
        w.result(w.call(fn, A, B), ein([la, la], [], w.D(A).conj(), w.D(B)), what='inner_prod_mps', f=fn)


for _L in (1, 2, 3, 4):
    _sandwich(_L, 'quick' if _L < 4 else 'thorough')


# =============================================================================================
# C05  traces, sums, diagonals, slices
# =============================================================================================
def sq(w, legs, pairs):
    """Physical dimensions where the legs listed in pairs[i] are equal."""
    s = [list(x) for x in phys(w, legs)]
    for i, p in enumerate(pairs):
        if p is not None:
            s[i][p[1] % legs[i]] = s[i][p[0] % legs[i]]
    return [tuple(x) for x in s]


def prune_legs(legs):
    """Legs per site after removing sites without legs."""
    out = [l for l in legs if l]
    return out or [0]


def _ptrace(legs, axes, tier):
    L = len(legs)
    per = [axes] * L if isinstance(axes[0], int) else list(axes)

    @case('partialtrace[%s,%s]' % (nm(legs), axes), 'C05', tier=tier)
    def f(w):
        A = w.mpa('A', sq(w, legs, per))
        la = labels(legs, 'a')
        out = []
        rest = []
        for i, p in enumerate(per):
            if p is None:
                out += la[i]
                rest.append(legs[i])
            else:
                x, y = p[0] % legs[i], p[1] % legs[i]
                la[i][y] = la[i][x]
                out += [l for j, l in enumerate(la[i]) if j not in (x, y)]
                rest.append(legs[i] - 2)
        want = ein([flat(la)], out, w.D(A))
        fn = w.fn('mparray.partialtrace')
        w.result(w.call(fn, A, axes), want, what='partialtrace', f=fn, legs=prune_legs(rest))
        if axes == (0, 1):
            w.result(w.call(fn, A), want, what='partialtrace with the default axes', f=fn, legs=prune_legs(rest))

    if all(p is not None and legs[i] == 2 for i, p in enumerate(per)):
        @case('trace[%s,%s]' % (nm(legs), axes), 'C05', tier=tier)
        def f(w):
            A = w.mpa('A', sq(w, legs, per))
            la = [[('a', i)] * 2 for i in range(L)]
            want = ein([flat(la)], [], w.D(A))
            fn = w.fn('mparray.trace')
            r = w.call(fn, A) if axes == (0, 1) else w.call(fn, A, axes)
            w.result(r, want, what='trace', f=fn)


for _L in (1, 2, 3):
    for _ax in ((0, 1), (1, 0), (-1, 0), (-2, -1)):
        _ptrace([2] * _L, _ax, 'quick')
    for _ax in ((0, 1), (0, 2), (1, 2), (-1, 0), (-3, 1)):
        _ptrace([3] * _L, _ax, 'quick')
_ptrace([2, 2, 2], ((0, 1), None, (0, 1)), 'quick')
_ptrace([2, 2, 2], (None, (0, 1), None), 'quick')
_ptrace([2, 2, 2], (None, (0, 1), (0, 1)), 'quick')
_ptrace([2, 2, 2], ((0, 1), (0, 1), None), 'quick')
_ptrace([2, 3, 1], ((0, 1), (-1, 0), None), 'quick')
_ptrace([2, 2], (None, (0, 1)), 'quick')
_ptrace([2, 2], ((1, 0), None), 'quick')
_ptrace([1, 2, 4], (None, (0, -1), (1, 3)), 'quick')
_ptrace([2, 2, 2, 2], ((0, 1), None, (0, 1), None), 'thorough')
_ptrace([2, 2, 2, 2, 2], (None, (0, 1), (0, 1), None, (0, 1)), 'thorough')


def _sum(legs, axes, tier, per=None):
    L = len(legs)
    if per is None:
        if axes is None:
            per = [list(range(n)) for n in legs]
        elif isinstance(axes, int):
            per = [[axes]] * L
        else:
            per = [list(axes)] * L

    @case('sum[%s,%s]' % (nm(legs), axes), 'C05', tier=tier)
    def f(w):
        A = w.mpa('A', phys(w, legs))
        la = labels(legs, 'a')
        out = []
        rest = []
        for i in range(L):
            drop = [x % legs[i] for x in per[i]]
            out += [l for j, l in enumerate(la[i]) if j not in drop]
            rest.append(legs[i] - len(drop))
        want = ein([flat(la)], out, w.D(A))
        r = w.call(A.sum) if axes is None else w.call(A.sum, axes)
        w.result(r, want, what='sum', f=type(A).sum, legs=rest)


for _l in ([1], [2], [1, 1], [2, 2], [2, 1, 2], [1, 1, 1]):
    _sum(_l, None, 'quick')
for _L in (1, 2, 3):
    _sum([2] * _L, 0, 'quick')
    _sum([2] * _L, 1, 'quick')
    _sum([2] * _L, -1, 'quick')
    _sum([2] * _L, -2, 'quick')
    _sum([1] * _L, 0, 'quick')
    _sum([3] * _L, (0, 2), 'quick')
    _sum([3] * _L, (-1, 0), 'quick')
    _sum([2] * _L, (), 'quick')
    _sum([3] * _L, (0, 1, 2), 'quick')
    _sum([3] * _L, (2, 0, 1), 'quick')
    _sum([4] * _L, (0, 1, 3), 'quick')
    _sum([4] * _L, (-1, 1, 2, 0), 'quick')
_sum([2, 1, 3], ((0,), None, (0, 2)), 'quick', [[0], [0], [0, 2]])
_sum([2, 2, 2], ((), (1,), (0, 1)), 'quick', [[], [1], [0, 1]])
_sum([2, 2], ((-1,), (-2,)), 'quick', [[1], [0]])
_sum([2, 2], (None, ()), 'quick', [[0, 1], []])
_sum([2, 2, 2, 2], (0, 1), 'thorough')


def concrete_shapes(legs, dims):
    it = iter(dims)
    return [tuple(next(it) for _ in range(n)) for n in legs]


def _get(legs, idx, tier):
    @case('get[%s,%s]' % (nm(legs), idx), 'C05', tier=tier)
    def f(w):
        s = [tuple([4 if j == 0 else x for j, x in enumerate(t)]) for t in phys(w, legs)]
        A = w.mpa('A', s)
        D = w.D(A)
        ind = []
        for i, n in enumerate(legs):
            ind.append(idx[i])
            ind += [slice(None)] * (n - 1)
        want = D[tuple(ind)]
        r = w.call(A.get, idx)
        w.result(r, want, what='get', f=type(A).get, legs=[n - 1 for n in legs])


for _l, _i in (([1], (2,)), ([2], (0,)), ([2, 2], (1, 3)), ([1, 1], (3, 0)), ([2, 1, 3], (0, 1, 2)),
               ([2, 2], (-1, -2)), ([1, 1, 1], (1, 1, 0))):
    _get(_l, _i, 'quick')


def _axis_iter(legs, axes, tier, default=False):
    L = len(legs)
    per = [axes] * L if isinstance(axes, int) else list(axes)
    sizes = [2, 3, 2, 2]

    @case('axis_iter%s[%s,%s]' % ('_default' if default else '', nm(legs), axes), 'C05', tier=tier)
    def f(w):
        s = [list(t) for t in phys(w, legs)]
        for i in range(L):
            s[i][per[i] % legs[i]] = sizes[i]
        A = w.mpa('A', [tuple(t) for t in s])
        D = w.D(A)
        rs = list(w.I.safe_iter(iter(w.call(A.axis_iter, *([axes] if not default else [])))))
        combos = list(itertools.product(*[range(sizes[i]) for i in range(L)]))
        w.require(len(rs) == len(combos), 'axis_iter yields %d of %d arrays' % (len(rs), len(combos)),
                  w.locate(type(A).axis_iter))
        for r, c in zip(rs, combos):
            ind = []
            for i, n in enumerate(legs):
                for j in range(n):
                    ind.append(c[i] if j == per[i] % n else slice(None))
            w.result(r, D[tuple(ind)], what='axis_iter%s' % (c,), f=type(A).axis_iter, fresh=False)


_axis_iter([2, 2], 0, 'quick')
_axis_iter([2, 2], 1, 'quick')
_axis_iter([2, 2], 0, 'quick', True)
_axis_iter([3], 0, 'quick', True)
_axis_iter([2, 2], -1, 'quick')
_axis_iter([2], 1, 'quick')
_axis_iter([3], -2, 'quick')
_axis_iter([2, 3], (0, 2), 'quick')
_axis_iter([2, 3], (-1, 1), 'quick')
_axis_iter([1, 1], 0, 'quick')
_axis_iter([1, 1, 1], 0, 'thorough')


def _diag(legs, axis, tier, default=False):
    L = len(legs)

    @case('diag[%s,%s%s]' % (nm(legs), axis, 'd' if default else ''), 'C05', tier=tier)
    def f(w):
        s = [list(t) for t in phys(w, legs)]
        for i in range(L):
            s[i][axis % legs[i]] = 3
        A = w.mpa('A', [tuple(t) for t in s])
        D = w.D(A)
        fn = w.fn('mparray.diag')
        r = w.call(fn, A) if default else w.call(fn, A, axis)
        w.require(len(r) == 3, 'diag has %s entries instead of 3' % (len(r),), w.locate(fn))
        for k in range(3):
            ind = []
            for i, n in enumerate(legs):
                for j in range(n):
                    ind.append(k if j == axis % n else slice(None))
            want = D[tuple(ind)]
            w.require(w.is_mpa(r[k]) == (legs[0] > 1), 'diag: entries are %s' % (
                'dense arrays although legs remain' if legs[0] > 1 else 'matrix product arrays without legs'), w.locate(fn))
            w.result(r[k], want, what='diag[%d]' % k, f=fn, fresh=False)


_diag([1, 1], 0, 'quick', True)
_diag([1], 0, 'quick')
_diag([1, 1, 1], 0, 'quick')
_diag([2, 2], 0, 'quick')
_diag([2, 2], 1, 'quick')
_diag([3, 3], 1, 'quick')
_diag([2, 2, 2], 0, 'quick')


def _prune(legs, tier, singles=()):
    @case('prune[%s,%s]' % (nm(legs), ''.join(map(str, singles))), 'C05', tier=tier)
    def f(w):
        s = [tuple(1 for _ in t) if i in singles else t for i, t in enumerate(phys(w, legs))]
        A = w.mpa('A', s)
        D = w.D(A)
        fn = w.fn('mparray.prune')
        if not singles:
            w.result(w.call(fn, A), D, what='prune', f=fn, legs=prune_legs(legs))
        else:
            sh = [d for i, t in enumerate(s) if i not in singles for d in t]
            want = D.reshape(tuple(sh))
            w.result(w.call(fn, A, singletons=True), want, what='prune', f=fn,
                     legs=prune_legs([0 if i in singles else n for i, n in enumerate(legs)]))


for _l in ([1, 0, 1], [0, 1, 1], [1, 1, 0], [0, 0, 1], [1, 0, 0], [2, 0], [0, 2], [0], [0, 0], [1, 1], [0, 1, 0, 2, 0]):
    _prune(_l, 'quick')
_prune([1, 2, 1], 'quick', (1,))
_prune([1, 2, 1], 'quick', (0, 2))
_prune([2, 2, 2], 'quick', (0, 1))
_prune([1, 0, 1], 'quick', (0,))
for _l, _s in (([1, 1], (0,)), ([1, 1], (1,)), ([1, 1], (0, 1)), ([1, 2, 1], (0,)), ([1, 2, 1], (2,)), ([2, 1, 2, 1], (3,)),
               ([2, 1, 2, 1], (0,)), ([2, 1, 2, 1], (1, 2)), ([2], (0,)), ([1, 1, 1, 1, 1], (0, 2, 4))):
    _prune(_l, 'quick', _s)


# =============================================================================================
# C06  rearrangements
# =============================================================================================
def _unary(legs, tier):
    n = nm(legs)
    L = len(legs)
    la = labels(legs, 'a')

    @case('T[%s]' % n, 'C06', tier=tier)
    def f(w):
        A = w.mpa('A', phys(w, legs))
        want = ein([flat(la)], flat([x[::-1] for x in la]), w.D(A))
        w.result(getattr(A, 'T'), want, ranks=A.ranks, what='T', f=type(A).T.fget)

    @case('transpose0[%s]' % n, 'C06', tier=tier)
    def f(w):
        A = w.mpa('A', phys(w, legs))
        want = ein([flat(la)], flat([x[::-1] for x in la]), w.D(A))
        w.result(w.call(A.transpose), want, ranks=A.ranks, what='transpose()', f=type(A).transpose)

    @case('adj[%s]' % n, 'C06', tier=tier)
    def f(w):
        A = w.mpa('A', phys(w, legs))
        want = ein([flat(la)], flat([x[::-1] for x in la]), w.D(A).conj())
        w.result(w.call(A.adj), want, ranks=A.ranks, what='adj', f=type(A).adj)

    @case('conj[%s]' % n, 'C06', tier=tier)
    def f(w):
        A = w.mpa('A', phys(w, legs))
        want = w.D(A).conj()
        w.result(w.call(A.conj), want, ranks=A.ranks, what='conj', f=type(A).conj)

    @case('copy[%s]' % n, 'C06', tier=tier)
    def f(w):
        A = w.mpa('A', phys(w, legs))
        w.result(w.call(A.copy), w.D(A), ranks=A.ranks, what='copy', f=type(A).copy)

    @case('reverse[%s]' % n, 'C06', tier=tier)
    def f(w):
        A = w.mpa('A', phys(w, legs))
        want = ein([flat(la)], flat(la[::-1]), w.D(A))
        r = w.call(A.reverse)
        w.result(r, want, ranks=A.ranks[::-1], what='reverse', f=type(A).reverse)

    @case('reverse2[%s]' % n, 'C06', tier=tier)
    def f(w):
        A = w.mpa('A', phys(w, legs))
        D = w.D(A)
        w.result(w.call(w.call(A.reverse).reverse), D, ranks=A.ranks, what='reverse twice', f=type(A).reverse)

    if all(legs):
        @case('ravel[%s]' % n, 'C06', tier=tier)
        def f(w):
            A = w.mpa('A', phys(w, legs))
            D = w.D(A)
            want = D.reshape(tuple(npm.prod(s) for s in A.shape))
            w.result(w.call(A.ravel), want, ranks=A.ranks, what='ravel', f=type(A).ravel, legs=[1] * L)

    @case('reshape_fuse[%s]' % n, 'C06', tier=tier)
    def f(w):
        # fuse all legs of every site, then split them again
        A = w.mpa('A', phys(w, legs))
        D = w.D(A)
        sh = A.shape
        r = w.call(A.reshape, [(npm.prod(s),) for s in sh])
        w.result(r, D.reshape(tuple(npm.prod(s) for s in sh)), ranks=A.ranks, what='reshape', f=type(A).reshape,
                 fresh=False)
        r2 = w.call(r.reshape, sh)
        w.result(r2, D, ranks=A.ranks, what='reshape back', f=type(A).reshape)

    @case('reshape_prune[%s]' % n, 'C06', tier=tier)
    def f(w):
        s = [t + (1,) if i % 2 == 0 else (1,) + t for i, t in enumerate(phys(w, legs))]
        A = w.mpa('A', s)
        D = w.D(A)
        want = D.reshape(tuple(x for t in phys(w, legs) for x in t))
        w.result(w.call(A.reshape, 'prune'), want, ranks=A.ranks, what="reshape('prune')", f=type(A).reshape,
                 legs=legs)

    for pos in range(L - 1):
        def expect(w, A, pos=pos):
            lts = w.lts(A)
            l = w.dense(None, lts[:pos + 1], keep=True)
            r = w.dense(None, lts[pos + 1:], keep=True)
            l = tn.drop_axis(l, 0)
            r = tn.drop_axis(r, r.ndim - 1)
            return l, r

        @case('vleg2leg[%s,%d]' % (n, pos), 'C06', tier=tier)
        def f(w, pos=pos, expect=expect):
            A = w.mpa('A', phys(w, legs))
            l, r = expect(w, A)
            want = Arr(tn.outer(l, r), w.D(A).dtype)
            rk = list(A.ranks)
            rk[pos] = 1
            w.result(w.call(A.vleg2leg, pos), want, ranks=rk, what='vleg2leg', f=type(A).vleg2leg)

        @case('leg2vleg[%s,%d]' % (n, pos), 'C06', tier=tier)
        def f(w, pos=pos):
            # any array with rank 1 at pos and equal adjacent legs
            s = [list(t) for t in phys(w, legs)]
            x = w.dim('x')
            s[pos] = s[pos] + [x]
            s[pos + 1] = [x] + s[pos + 1]
            b = [w.dim('Ab%d' % i) for i in range(L - 1)]
            b[pos] = 1
            A = w.mpa('A', [tuple(t) for t in s], bonds=b)
            lab = labels([len(t) for t in s], 'a')
            lab[pos + 1][0] = lab[pos][-1]
            out = flat([t[:-1] if i == pos else (t[1:] if i == pos + 1 else t) for i, t in enumerate(lab)])
            want = ein([flat(lab)], out, w.D(A))
            rk = list(b)
            rk[pos] = x
            w.result(w.call(A.leg2vleg, pos), want, ranks=rk, what='leg2vleg', f=type(A).leg2vleg)

        @case('vleg2leg_inv[%s,%d]' % (n, pos), 'C06', tier=tier)
        def f(w, pos=pos):
            A = w.mpa('A', phys(w, legs))
            D = w.D(A)
            r = w.call(w.call(A.vleg2leg, pos).leg2vleg, pos)
            w.result(r, D, ranks=A.ranks, what='leg2vleg(vleg2leg)', f=type(A).leg2vleg)

        @case('split[%s,%d]' % (n, pos), 'C06', tier=tier)
        def f(w, pos=pos, expect=expect):
            A = w.mpa('A', phys(w, legs))
            l, r = expect(w, A)
            dt = w.D(A).dtype
            rl, rr = w.call(A.split, pos)
            w.require(len(rl) == pos + 1 and len(rr) == L - pos - 1, 'split: wrong lengths', w.locate(type(A).split))
            w.result(rl, Arr(l, dt) if w.aspects != {'dtype'} else None, ranks=A.ranks[:pos], what='split: left part',
                     f=type(A).split, fresh=False)
            w.result(rr, Arr(r, dt) if w.aspects != {'dtype'} else None, ranks=A.ranks[pos + 1:],
                     what='split: right part', f=type(A).split)

    for pos in (-1, L, L + 1):
        @case('split_out[%s,%d]' % (n, pos), 'C06', tier=tier, aspects=('cform', 'alias'))
        def f(w, pos=pos):
            A = w.mpa('A', phys(w, legs))
            D = w.D(A)
            rl, rr = w.call(A.split, pos)
            w.require((rl is None) == (pos < 0) and (rr is None) == (pos >= L), 'split: None on the wrong side',
                      w.locate(type(A).split))
            w.result(rr if pos < 0 else rl, D, what='split outside the chain', f=type(A).split)

    for force in (False, True):
        @case('pad_ranks[%s,%s]' % (n, force), 'C06', tier=tier)
        def f(w, force=force):
            if L == 1:
                A = w.mpa('A', phys(w, legs))
                w.result(w.call(A.pad_ranks, 3, force), w.D(A), ranks=(), what='pad_ranks', f=type(A).pad_ranks)
                return
            A = w.mpa('A', phys(w, legs))
            D = w.D(A)
            rank = w.dim('r')
            dims = [npm.prod(s) for s in A.shape]
            ranks = []
            from .dims import dmin, dmax, prod
            for i in range(1, L):
                full = dmin(prod(dims[:i]), prod(dims[i:]))
                tgt = rank if force else dmin(full, rank)
                ranks.append(dmax(A.ranks[i - 1], tgt))
            r = w.call(A.pad_ranks, rank, force_rank=force)
            w.result(r, D, ranks=ranks, what='pad_ranks', f=type(A).pad_ranks)

        @case('pad_ranks_default[%s,%s]' % (n, force), 'C06', tier=tier, aspects=('cform', 'rank'))
        def f(w, force=force):
            if L < 2 or L > 4:
                L1 = w.mpa('A', phys(w, legs))
                w.result(w.call(L1.pad_ranks), w.D(L1), what='pad_ranks', f=type(L1).pad_ranks)
                return
            A = w.mpa('A', phys(w, legs), bonds=[3, 1, 2][:L - 1])
            D = w.D(A)
            dims = [npm.prod(s) for s in A.shape]
            ranks = []
            from .dims import dmin, dmax, prod
            for i in range(1, L):
                full = dmin(prod(dims[:i]), prod(dims[i:]))
                ranks.append(dmax(A.ranks[i - 1], 3 if force else dmin(full, 3)))
            r = w.call(A.pad_ranks, force_rank=force) if force else w.call(A.pad_ranks)
            w.result(r, D, ranks=ranks, what='pad_ranks(rank=None)', f=type(A).pad_ranks)


for _l, _t in legsets():
    _unary(_l, _t)


@case('split_last', 'C06', aspects=('cform', 'alias'))
def f(w):
    # cutting behind the last site leaves the whole array on the left
    A = w.mpa('A', phys(w, [1, 2]))
    lts = w.lts(A)
    r = w.call(A.split, 1)
    w.result(r[0], None, what='split', f=type(A).split)


def _transpose(legs, axes, tier):
    @case('transpose[%s,%s]' % (nm(legs), axes), 'C06', tier=tier)
    def f(w):
        A = w.mpa('A', phys(w, legs))
        la = labels(legs, 'a')
        want = ein([flat(la)], flat([[x[a] for a in axes] for x in la]), w.D(A))
        w.result(w.call(A.transpose, axes), want, ranks=A.ranks, what='transpose', f=type(A).transpose)


for _L in (1, 2, 3):
    _transpose([2] * _L, (1, 0), 'quick')
    _transpose([2] * _L, (0, 1), 'quick')
    _transpose([3] * _L, (1, 2, 0), 'quick')
    _transpose([3] * _L, (2, 0, 1), 'quick')
    _transpose([3] * _L, (0, 2, 1), 'quick')
    _transpose([1] * _L, (0,), 'quick')
    _transpose([4] * _L, (2, 0, 3, 1), 'quick')
    _transpose([5] * _L, (4, 2, 0, 3, 1), 'quick')


def _group(legs, k, tier):
    L = len(legs)

    @case('group_sites[%s,%d]' % (nm(legs), k), 'C06', tier=tier)
    def f(w):
        A = w.mpa('A', phys(w, legs))
        gl = [sum(legs[i:i + k]) for i in range(0, L, k)]
        w.result(w.call(A.group_sites, k), w.D(A), ranks=A.ranks[k - 1::k][:L // k - 1], what='group_sites',
                 f=type(A).group_sites, legs=gl)


for _l, _k in (([1], 1), ([1, 1], 1), ([1, 1], 2), ([2, 2], 2), ([2, 2], 1), ([1, 2, 1, 2], 2), ([1, 1, 1], 3),
               ([2, 0, 1], 3), ([1, 1, 1, 1], 2)):
    _group(_l, _k, 'quick')
_group([1] * 6, 2, 'thorough')
_group([2] * 6, 3, 'thorough')


def _splits(legs, k, tier):
    @case('split_sites[%s,%d]' % (nm(legs), k), 'C06', tier=tier)
    def f(w):
        A = w.mpa('A', phys(w, legs))
        r = w.call(A.split_sites, k)
        w.result(r, w.D(A), what='split_sites', f=type(A).split_sites, legs=[n // k for n in legs for _ in range(k)])

    @case('group_split[%s,%d]' % (nm(legs), k), 'C06', tier=tier)
    def f(w):
        A = w.mpa('A', phys(w, legs))
        r = w.call(w.call(A.split_sites, k).group_sites, k)
        w.result(r, w.D(A), what='group_sites(split_sites)', f=type(A).group_sites, legs=legs)


for _l, _k in (([2], 2), ([2], 1), ([2, 2], 2), ([4, 2], 2), ([3], 3), ([2, 1], 1), ([4], 2)):
    _splits(_l, _k, 'quick')
_splits([2, 2, 2], 2, 'thorough')


# =============================================================================================
# C07  dense conversion
# =============================================================================================
def _dense(legs, tier):
    n = nm(legs)
    L = len(legs)

    @case('to_array[%s]' % n, 'C07', tier=tier)
    def f(w):
        A = w.mpa('A', phys(w, legs))
        want = w.D(A)
        w.result(w.call(A.to_array), want, what='to_array', f=type(A).to_array)

    @case('from_array[%s]' % n, 'C07', tier=tier)
    def f(w):
        s = phys(w, legs)
        X = w.array('A', flat(s))
        cls = w.fn('mparray.MPArray')
        r = w.call(cls.from_array, X, iter(legs) if len(set(legs)) > 1 else legs[0])
        w.result(r, X, what='from_array', f=cls.from_array, legs=legs)

    if all(legs) and len(set(legs)) > 1:
        @case('from_array_list[%s]' % n, 'C07', tier=tier)
        def f(w):
            s = phys(w, legs)
            X = w.array('A', flat(s))
            cls = w.fn('mparray.MPArray')
            w.result(w.call(cls.from_array, X, tuple(legs)), X, what='from_array', f=cls.from_array, legs=legs)
    if all(legs) and len(set(legs)) == 1:
        @case('roundtrip[%s]' % n, 'C07', tier=tier)
        def f(w):
            s = phys(w, legs)
            X = w.array('A', flat(s))
            cls = w.fn('mparray.MPArray')
            r = w.call(w.call(cls.from_array, X, legs[0]).to_array)
            w.result(r, X, what='from_array -> to_array', f=cls.from_array)

        @case('to_array_global[%s]' % n, 'C07', tier=tier)
        def f(w):
            A = w.mpa('A', phys(w, legs))
            la = labels(legs, 'a')
            want = ein([flat(la)], [la[i][j] for j in range(legs[0]) for i in range(L)], w.D(A))
            w.result(w.call(A.to_array_global), want, what='to_array_global', f=type(A).to_array_global)

        @case('from_array_global[%s]' % n, 'C07', tier=tier)
        def f(w):
            s = phys(w, legs)
            X = w.array('A', [s[i][j] for j in range(legs[0]) for i in range(L)])
            la = labels(legs, 'a')
            want = ein([[la[i][j] for j in range(legs[0]) for i in range(L)]], flat(la), X)
            cls = w.fn('mparray.MPArray')
            r = w.call(cls.from_array_global, X, legs[0])
            w.result(r, want, what='from_array_global', f=cls.from_array_global, legs=legs)

        @case('global_local[%s]' % n, 'C07', tier=tier, aspects=('dtype',))
        def f(w):
            s = phys(w, legs)
            X = w.array('A', [s[i][j] for j in range(legs[0]) for i in range(L)])
            la = labels(legs, 'a')
            glob = [la[i][j] for j in range(legs[0]) for i in range(L)]
            g2l, l2g = w.fn('utils.global_to_local'), w.fn('utils.local_to_global')
            r = w.call(g2l, X, L)
            w.result(r, ein([glob], flat(la), X), what='global_to_local', f=g2l, fresh=False)
            w.result(w.call(l2g, r, L), X, what='local_to_global', f=l2g, fresh=False)
            w.result(w.call(l2g, w.array('B', flat(s)), L), ein([flat(la)], glob, w.array('B', flat(s))),
                     what='local_to_global', f=l2g, fresh=False)

    @case('from_array_virtual[%s]' % n, 'C07', tier=tier, aspects=())
    def f(w):
        s = phys(w, legs)
        X = w.array('A', [w.dim('bl')] + flat(s) + [w.dim('br')])
        cls = w.fn('mparray.MPArray')
        r = w.call(cls.from_array, X, iter(legs) if len(set(legs)) > 1 else legs[0], has_virtual=True)
        w.same(w.dense(r, keep=True), X, 'from_array(has_virtual)', w.locate(cls.from_array))
        w.require(tuple(l.ndim - 2 for l in w.lts(r)) == tuple(legs), 'from_array(has_virtual): legs per site',
                  w.locate(cls.from_array))

    @case('from_kron[%s]' % n, 'C07', tier=tier)
    def f(w):
        s = phys(w, legs)
        fs = [w.array('ABCDFGHIJKLMN'[i], s[i]) for i in range(L)]
        la = labels(legs, 'a')
        want = ein(la, flat(la), *fs)
        cls = w.fn('mparray.MPArray')
        w.result(w.call(cls.from_kron, iter(fs)), want, ranks=[1] * (L - 1), what='from_kron', f=cls.from_kron,
                 legs=legs)

    @case('ctor[%s]' % n, 'C07', tier=tier)
    def f(w):
        s = phys(w, legs)
        b = [1] + [w.dim('b%d' % i) for i in range(L - 1)] + [1]
        fs = [w.array('ABCDFGHIJKLMN'[i], (b[i],) + s[i] + (b[i + 1],)) for i in range(L)]
        want = Arr(w.dense(None, fs), npm.promote(*[x.dtype for x in fs]))
        cls = w.fn('mparray.MPArray')
        r = w.call(cls, iter(fs))
        w.result(r, want, ranks=b[1:-1], what='MPArray(ltens)', f=cls.__init__, legs=legs)

    @case('attrs[%s]' % n, 'C19', tier=tier, aspects=())
    def f(w):
        s = phys(w, legs)
        A = w.mpa('A', s)
        lts = w.lts(A)
        cls = type(A)
        w.require(tuple(A.shape) == tuple(s), 'shape %s instead of %s' % (A.shape, tuple(s)))
        w.require(tuple(A.ndims) == tuple(legs), 'ndims %s instead of %s' % (A.ndims, legs))
        w.require(tuple(A.ranks) == tuple(l.shape[-1] for l in lts[:-1]), 'ranks wrong')
        w.require(len(A) == L, 'len wrong')
        w.require(A.size == sum([npm.prod(l.shape) for l in lts]), 'size wrong')
        w.require(npm.real.dtype(A.dtype).kind == 'c', 'dtype of a complex array')


for _l, _t in legsets():
    _dense(_l, _t)


@case('from_array_none', 'C07')
def f(w):
    s = phys(w, [3])
    X = w.array('A', s[0])
    cls = w.fn('mparray.MPArray')
    w.result(w.call(cls.from_array, X), X, what='from_array', f=cls.from_array, legs=[3])
    w.result(w.call(cls.from_array_global, X), X, what='from_array_global', f=cls.from_array_global, legs=[3])


for _L in (1, 2, 3, 4):
    @case('eye[%d]' % _L, 'C07', tier='quick' if _L < 4 else 'thorough')
    def f(w, L=_L):
        ds = [w.dim('d%d' % i) for i in range(L)]
        fn = w.fn('factory.eye')
        want = npm.ones((), float)
        for d in ds:
            want = Arr(tn.outer(want.val, tn.eye((d,))), want.dtype)
        w.result(w.call(fn, L, iter(ds)), want, ranks=[1] * (L - 1), what='eye', f=fn, legs=[2] * L)
        d = ds[0]
        want = npm.ones((), float)
        for _ in ds:
            want = Arr(tn.outer(want.val, tn.eye((d,))), want.dtype)
        w.result(w.call(fn, L, d), want, ranks=[1] * (L - 1), what='eye', f=fn, legs=[2] * L)

    for _force in (False, True):
        @case('zero[%d,%s]' % (_L, _force), 'C07', tier='quick' if _L < 4 else 'thorough', aspects=ALL)
        def f(w, L=_L, force=_force):
            from .dims import dmin, prod
            s = phys(w, [2] * L)
            rank = w.dim('r')
            fn = w.fn('factory.zero')
            dims = [prod(x) for x in s]
            rk = [rank if force else dmin(rank, dmin(prod(dims[:i]), prod(dims[i:]))) for i in range(1, L)]
            want = npm.zeros(flat(s), float)
            w.result(w.call(fn, L, s, rank, force_rank=force), want, ranks=rk, what='zero', f=fn)
            d = w.dim('d')
            full = [rank if force else dmin(rank, dmin(prod([d] * i), prod([d] * (L - i)))) for i in range(1, L)]
            w.result(w.call(fn, L, d, rank, force), npm.zeros((d,) * L, float), ranks=full, what='zero', f=fn)
            e = w.dim('e')
            w.result(w.call(fn, L, (d, e), [rank] * (L - 1), True), npm.zeros((d, e) * L, float),
                     ranks=[rank] * (L - 1), what='zero', f=fn)

    @case('diagonal_mpa[%d]' % _L, 'C07', tier='quick' if _L < 4 else 'thorough')
    def f(w, L=_L):
        d = w.dim('d')
        X = w.array('A', (d,))
        fn = w.fn('factory.diagonal_mpa')
        want = ein([['x']] + [['x'] + ['x', i][1:] for i in []], ['x'], X)
        t = tn.delta((d,), L + 1)
        want = Arr(tn.tensordot(X.val, t, [0], [0]), X.dtype)
        w.result(w.call(fn, X, L), want, ranks=[d] * (L - 1), what='diagonal_mpa', f=fn)


# =============================================================================================
# C02  canonical forms, norm
# =============================================================================================
def _canon(legs, left, right, tier):
    L = len(legs)

    @case('canonicalize[%s,%s,%s]' % (nm(legs), left, right), 'C02', tier=tier, aspects=('cform', 'dtype', 'alias'))
    def f(w):
        A = w.mpa('A', phys(w, legs))
        B = w.call(A.copy)
        w.inputs.append(('mpa', 'B', B, w.snapshot(B)))
        D = w.D(A)
        w.call(A.canonicalize, left, right)
        m = type(A).canonicalize
        if 'value' in w.aspects:
            l, r = w.cform(A)
            if left is not None or right is not None:
                tl = {None: 0, 'afull': L - 1}.get(left, left)
                tr = {None: L, 'afull': 1}.get(right, right)
                tl = tl + L if tl < 0 else tl
                tr = tr + L if tr < 0 else tr
                w.require(l >= tl, 'canonicalize(left=%s): left part %d, requested %d' % (left, l, tl), w.locate(m))
                w.require(r <= tr, 'canonicalize(right=%s): right part %d, requested %d' % (right, r, tr),
                          w.locate(m))
            else:
                w.require(l == L - 1 or r == 1, 'canonicalize(): form (%d, %d) is not full' % (l, r), w.locate(m))
            w.check_cform(A, 'canonicalize', w.locate(m))
            for i, rk in enumerate(A.ranks):
                pass
        w.result(A, D, what='canonicalize', f=m, fresh=False, modified=('A',))
        if 'rank' in w.aspects:
            pass

    @case('canonrank[%s,%s,%s]' % (nm(legs), left, right), 'C19', tier=tier, aspects=())
    def f(w):
        from .dims import known_le
        A = w.mpa('A', phys(w, legs))
        before = A.ranks
        w.call(A.canonicalize, left, right)
        for a, b in zip(A.ranks, before):
            w.require(known_le(a, b) is not False, 'canonicalize increases a rank: %s -> %s' % (b, a),
                      w.locate(type(A).canonicalize))


for _l in ([1], [1, 1], [1, 1, 1], [2, 1, 2]):
    _n = len(_l)
    _seen = set()
    for _le in [None, 'afull'] + list(range(-_n, _n)):
        for _ri in [None, 'afull'] + list(range(-_n, _n + 1)):
            _tl = {None: 0, 'afull': _n - 1}.get(_le, _le)
            _tr = {None: _n, 'afull': 1}.get(_ri, _ri)
            _tl = _tl + _n if _tl < 0 else _tl
            _tr = _tr + _n if _tr < 0 else _tr
            if not _tl < _tr:
                continue
            if _n == 3 and _l[0] == 2 and (_le not in (None, 1) or _ri not in (None, 2, 'afull')):
                continue
            _canon(_l, _le, _ri, 'quick')
_canon([1, 1, 1, 1], None, None, 'quick')
_canon([1, 1, 1, 1], 1, 3, 'quick')
_canon([1, 1, 1, 1], 2, 3, 'quick')
_canon([1, 1, 1, 1], None, 'afull', 'quick')
_canon([1, 1, 1, 1], 'afull', None, 'quick')
_canon([2, 0, 1, 2], 1, 2, 'thorough')
_canon([1] * 5, 2, 3, 'thorough')
_canon([1] * 5, 1, -1, 'thorough')


def _norm(legs, tier):
    n = nm(legs)

    @case('norm[%s]' % n, 'C02', tier=tier, aspects=('cform', 'dtype', 'alias'))
    def f(w):
        A = w.mpa('A', phys(w, legs))
        D = w.D(A)
        fn = w.fn('mparray.norm')
        r = w.call(fn, A)
        w.result(r, npm.norm(D) if 'dtype' not in w.aspects else None, what='norm', f=fn, recanon=('A',))
        w.result(A, D, what='array after norm', f=fn, fresh=False, recanon=('A',))

    @case('normdist[%s]' % n, 'C02', tier=tier, aspects=('cform', 'alias'))
    def f(w):
        A, B = w.mpa('A', phys(w, legs)), w.mpa('B', phys(w, legs))
        want = npm.norm(w.D(A) - w.D(B))
        fn = w.fn('mparray.normdist')
        w.result(w.call(fn, A, B), want, what='normdist', f=fn)

    for reg in ('thin', 'fat', 'mid'):
        @case('singularvals[%s,%s]' % (n, reg), 'C02', tier=tier, aspects=('cform', 'alias'))
        def f(w, reg=reg):
            w.regime = reg
            A = w.mpa('A', phys(w, legs))
            D = w.D(A)
            L = len(legs)
            svs = w.call(A.singularvals)
            w.require(len(svs) == L - 1, 'singularvals yields %d arrays for %d cuts' % (len(svs), L - 1),
                      w.locate(type(A).singularvals))
            w.result(A, D, what='array after singularvals', f=type(A).singularvals, fresh=False, recanon=('A',))


for _l, _t in legsets():
    _norm(_l, _t)


for _L in (1, 2, 3):
    for _le, _ri, _ex in ((_L + 1, None, 'IndexError'), (None, _L + 1, 'IndexError'), (-_L - 1, None, 'IndexError'),
                          (None, -_L - 1, 'IndexError'), (_L, None, 'ValueError'), (None, 0, 'ValueError'),
                          (1, 1, 'ValueError'), (_L - 1, 0, 'ValueError'), (_L, _L, 'ValueError')):
        if 'canonreject[%d,%s,%s]' % (_L, _le, _ri) in _SEEN:
            continue

        @case('canonreject[%d,%s,%s]' % (_L, _le, _ri), 'C02', aspects=())
        def f(w, L=_L, le=_le, ri=_ri, ex=_ex):
            A = w.mpa('A', phys(w, [1] * L))
            D = w.D(A)
            w.rejects(A.canonicalize, le, ri, _types=(IndexError, ValueError) if False else
                      {'IndexError': IndexError, 'ValueError': ValueError}[ex])
            w.same(w.dense(A), D, 'array after rejected canonicalize', w.locate(type(A).canonicalize))
