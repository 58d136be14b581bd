"""Storing and loading (C17)."""
from . import npm
from .cases import case
from .specs_core import phys, nm
from .world import F8, C16


def same_mpa(w, r, A, what, f):
    """Same local tensors (value, shape, entry type), same reported canonical form, same class."""
    where = w.locate(f)
    a, b = w.lts(A), w.lts(r)
    w.require(len(a) == len(b), '%s: %d sites instead of %d' % (what, len(b), len(a)), where)
    for i, (x, y) in enumerate(zip(a, b)):
        w.require(tuple(x.shape) == tuple(y.shape), '%s: local tensor %d has shape %s instead of %s' % (
            what, i, y.shape, x.shape), where)
        w.same(y, x, '%s: local tensor %d' % (what, i), where)
        w.require(npm.arr_of(y).dtype == npm.arr_of(x).dtype, '%s: entries of site %d are %s instead of %s' % (
            what, i, npm.arr_of(y).dtype, npm.arr_of(x).dtype), where)
    w.require(tuple(int(x) for x in w.cform(r)) == tuple(w.cform(A)), '%s: canonical form %s instead of %s' % (
        what, w.cform(r), w.cform(A)), where)
    w.require(tuple(r.shape) == tuple(A.shape) and tuple(r.ranks) == tuple(A.ranks), '%s: shape' % what, where)
    w.check_cform(r, what, where)


def _io(legs, tier, dtype=None):
    lab = nm(legs) + (',' + str(dtype) if dtype else '')

    def make(w, name='A', lg=legs):
        return w.mpa(name, phys(w, lg), dtype=dtype)

    @case('dump_load_path[%s]' % lab, 'C17', tier=tier, aspects=('alias', 'cform'))
    def f(w):
        A = make(w)
        C = type(A)
        w.call(A.dump, '/tmp/file.h5')
        r = w.call(C.load, '/tmp/file.h5')
        same_mpa(w, r, A, 'loaded array', C.load)
        w.result(r, w.D(A), what='loaded array', f=C.load)

    @case('dump_load_group[%s]' % lab, 'C17', tier=tier, aspects=('alias', 'cform'))
    def f(w):
        A = make(w)
        C = type(A)
        g = npm.Group()
        w.call(A.dump, g)
        r = w.call(C.load, g)
        same_mpa(w, r, A, 'loaded array', C.load)
        w.result(r, w.D(A), what='loaded array', f=C.load)
        r2 = w.call(C.load, g)
        same_mpa(w, r2, A, 'array loaded again', C.load)

    @case('dump_twice[%s]' % lab, 'C17', tier=tier, aspects=())
    def f(w):
        """The file holds the array written last, whatever was in it before."""
        A, B = make(w), make(w, 'B', [2] + [max(1, x) for x in legs])
        C = type(A)
        w.call(B.dump, '/tmp/file.h5')
        w.call(A.dump, '/tmp/file.h5')
        same_mpa(w, w.call(C.load, '/tmp/file.h5'), A, 'array loaded after overwriting', C.load)
        w.call(B.dump, '/tmp/file2.h5')
        same_mpa(w, w.call(C.load, '/tmp/file.h5'), A, 'array loaded again', C.load)
        same_mpa(w, w.call(C.load, '/tmp/file2.h5'), B, 'array from second file', C.load)

    @case('dump_modify[%s]' % lab, 'C17', tier=tier, aspects=())
    def f(w):
        """Later changes of the array do not reach the file."""
        A = make(w)
        C = type(A)
        keep = w.call(A.copy)
        g = npm.Group()
        sub = g.create_group('x')
        w.call(A.dump, sub)
        w.call(A.canonicalize)
        same_mpa(w, w.call(C.load, sub), keep, 'loaded array', C.load)
        sub2 = g.create_group('y')
        w.call(A.dump, sub2)
        same_mpa(w, w.call(C.load, sub2), A, 'loaded canonical array', C.load)
        same_mpa(w, w.call(C.load, sub), keep, 'first array', C.load)
        r = w.call(C.load, sub2)
        w.call(r.canonicalize, left=0, right=1) if len(legs) > 1 else None
        same_mpa(w, w.call(C.load, sub2), A, 'array loaded again', C.load)


for _l in ([1], [0], [3], [1, 1], [2, 1], [2, 0, 1], [1, 2, 3], [1, 1, 1, 1]):
    _io(_l, 'quick')
for _d in ('float64', 'float32', 'complex64', ['float64', 'complex128']):
    _io([1, 2, 1], 'quick', _d)


@case('dump_load_path[12 sites]', 'C17', aspects=())
def f(w):
    w.regime = 'eq'
    A = w.mpa('A', [(2 + i % 3,) for i in range(12)])
    C = type(A)
    w.call(A.dump, '/tmp/file.h5')
    same_mpa(w, w.call(C.load, '/tmp/file.h5'), A, 'loaded array', C.load)
    g = npm.Group()
    w.call(A.dump, g)
    same_mpa(w, w.call(C.load, g), A, 'loaded array', C.load)


@case('load_subclass', 'C17', aspects=())
def f(w):
    C = w.fn('povm.mppovm.MPPovm')
    A = w.mpa('A', [(2, 3, 3), (3, 2, 2)], cls=C)
    w.call(A.dump, '/tmp/povm.h5')
    r = w.call(C.load, '/tmp/povm.h5')
    w.require(type(r) is C, 'MPPovm.load returns %s' % type(r))
    same_mpa(w, r, A, 'loaded MPPovm', C.load)
    M = w.fn('mparray.MPArray')
    r = w.call(M.load, '/tmp/povm.h5')
    w.require(type(r) is M, 'MPArray.load returns %s' % type(r))
    same_mpa(w, r, A, 'loaded MPArray', M.load)
