"""LocalTensors: bookkeeping of the canonical form, storage, read-only access."""
from . import tn, npm
from .cases import case
from .specs_core import phys, nm
from .world import Violation


def new_tensor(w, name, shape, kind):
    """An arbitrary tensor of the given shape that is left/right isometric if so stated."""
    a = w.opaque(name, shape)
    nw = sum(1 for s in shape if s != 1)
    lw = 0 if shape[0] == 1 else 1
    rw = 0 if shape[-1] == 1 else 1
    iso = []
    if kind in ('left', 'both'):
        iso.append(tuple(range(nw - rw)))
    if kind in ('right', 'both'):
        iso.append(tuple(range(lw, nw)))
    if iso:
        tn.ST.iso[name] = iso
    return a


def _upd(L, idx, kind):
    @case('lt_update[%d,%d,%s]' % (L, idx, kind), 'C01', aspects=('cform',))
    def f(w):
        A = w.mpa('A', phys(w, [1] * L))
        old = w.lts(A)
        pos = idx % L
        t = new_tensor(w, 'N', old[pos].shape, kind)
        m = type(A.lt).update
        w.call(A.lt.update, idx, t, canonicalization=kind)
        got = w.lts(A)
        for i in range(L):
            w.same(got[i], t if i == pos else old[i], 'local tensor %d after update(%d)' % (i, idx), w.locate(m))
        w.check_cform(A, 'update(%d, canonicalization=%r)' % (idx, kind), w.locate(m))

    if kind is None:
        @case('lt_setitem[%d,%d]' % (L, idx), 'C01', aspects=('cform',))
        def f(w):
            A = w.mpa('A', phys(w, [1] * L))
            old = w.lts(A)
            pos = idx % L
            t = new_tensor(w, 'N', old[pos].shape, kind)
            w.call(A.lt.__setitem__, idx, t)
            got = w.lts(A)
            for i in range(L):
                w.same(got[i], t if i == pos else old[i], 'local tensor %d after assignment to %d' % (i, idx))
            w.check_cform(A, 'lt[%d] = tensor' % idx, w.locate(type(A.lt).__setitem__))


for _L in (1, 2, 3):
    for _i in range(-_L, _L):
        for _k in (None, 'left', 'right'):
            _upd(_L, _i, _k)


def _sl(L, sl, kinds, single):
    rng = list(range(*sl.indices(L)))

    @case('lt_slice[%d,%s,%s%s]' % (L, '%s:%s' % (sl.start, sl.stop), ','.join(map(str, kinds)),
                                     's' if single else ''), 'C01', aspects=('cform',))
    def f(w):
        A = w.mpa('A', phys(w, [1] * L))
        old = w.lts(A)
        n = len(rng)
        b = [old[rng[0]].shape[0]] + [w.dim('nb%d' % i) for i in range(n - 1)] + [old[rng[-1]].shape[-1]]
        ts = [new_tensor(w, 'N%d' % i, (b[i],) + old[p].shape[1:-1] + (b[i + 1],), kinds[i])
              for i, p in enumerate(rng)]
        m = type(A.lt).update
        w.call(A.lt.update, sl, iter(ts) if single else tuple(ts), canonicalization=kinds[0] if single else kinds)
        got = w.lts(A)
        want = list(old)
        for p, t in zip(rng, ts):
            want[p] = t
        for i in range(L):
            w.same(got[i], want[i], 'local tensor %d after update(%s)' % (i, sl), w.locate(m))
        w.check_cform(A, 'update(%s, canonicalization=%r)' % (sl, kinds), w.locate(m))


import itertools as _it
for _L, _s in ((2, slice(0, 2)), (3, slice(0, 2)), (3, slice(1, 3)), (3, slice(-2, None))):
    for _ks in _it.product((None, 'left', 'right'), repeat=2):
        _sl(_L, _s, _ks, False)
    for _k in (None, 'left', 'right'):
        _sl(_L, _s, (_k, _k), True)
for _ks in (('left', 'left', None), (None, 'right', 'right'), ('left', None, 'right'), ('right', None, 'left')):
    _sl(3, slice(0, 3), _ks, False)
    _sl(4, slice(0, 3), _ks, False)


for _L in (1, 2, 3):
    @case('lt_copy[%d]' % _L, 'C01', aspects=('cform', 'alias'))
    def f(w, L=_L):
        A = w.mpa('A', phys(w, [1] * L))
        c = w.call(A.lt.copy)
        r = w.fn('mparray.MPArray')(c) if False else w.call(w.fn('mparray.MPArray'), c)
        w.require(w.cform(r) == w.cform(A), 'copy loses the canonical form', w.locate(type(A.lt).copy))
        w.result(r, w.D(A), what='LocalTensors.copy', f=type(A.lt).copy)

    @case('lt_access[%d]' % _L, 'C13', aspects=('alias',), variants=False)
    def f(w, L=_L):
        A = w.mpa('A', phys(w, [1] * L))
        LTc = type(A.lt)
        for what, it in (('lt[i]', [w.call(A.lt.__getitem__, i) for i in range(L)]),
                         ('lt[-i]', [w.call(A.lt.__getitem__, -i - 1) for i in range(L)]),
                         ('lt[:]', w.call(A.lt.__getitem__, slice(None))), ('iter(lt)', w.lts(A))):
            it = list(w.I.safe_iter(iter(it))) if not isinstance(it, list) else it
            w.require(len(it) == L, '%s yields %d of %d tensors' % (what, len(it), L), w.locate(LTc.__getitem__))
            for t in it:
                for asp in ('alias', 'value'):
                    w.require(not t.flags.writeable, '%s hands out a writeable local tensor' % what,
                              w.locate(LTc.__getitem__), asp)
        for i in range(L):
            w.same(w.call(A.lt.__getitem__, i), w.lts(A)[i], 'lt[%d]' % i)
            w.same(w.call(A.lt.__getitem__, i - L), w.lts(A)[i], 'lt[%d]' % (i - L))

    for _l in range(_L):
        for _r in range(1, _L + 1):
            @case('lt_ctor[%d,%d,%d]' % (_L, _l, _r), 'C01', aspects=(), variants=False)
            def f(w, L=_L, l=_l, r=_r):
                A = w.mpa('A', phys(w, [1] * L), cform=(l, r))
                w.require(w.cform(A) == (l, r), 'LocalTensors(cform=(%d, %d)) reports %s' % (l, r, w.cform(A)))
                LT = w.fn('mpstruct.LocalTensors')
                t = w.call(LT, list(w.lts(A)))
                w.require(tuple(t.canonical_form) == (0, L), 'LocalTensors() claims the form %s' % (
                    tuple(t.canonical_form),), w.locate(LT.__init__))
                t = w.call(LT, list(w.lts(A)), cform=(l, None))
                w.require(tuple(t.canonical_form) == (l, L), 'LocalTensors(cform=(%d, None)) claims the form %s' % (
                    l, tuple(t.canonical_form)), w.locate(LT.__init__))
