"""Abstract inputs, specifications' vocabulary and the exploration driver."""
import itertools
import numbers
import time
import numpy as real
from . import dims as D
from . import tn, npm, models, evalten
from .dims import Dim, Unsupported, AnalysisSignal, ORACLE
from .interp import TR, Anchor, HOOKS
from .npm import Arr, Sca, EV

F8, C16 = real.dtype('float64'), real.dtype('complex128')
F4, C8 = real.dtype('float32'), real.dtype('complex64')


class Violation(AnalysisSignal):
    def __init__(self, what, where='', prop=None):
        AnalysisSignal.__init__(self, what)
        self.what = what
        self.where_ = where


class BadBonds(Violation):
    pass


class Pruned(AnalysisSignal):
    pass


class Res(object):
    __slots__ = ('case', 'status', 'paths', 'pruned', 'note', 'where', 'seconds', 'obligations')

    def __init__(self, case):
        self.case = case
        self.status = 'undecided'
        self.paths = self.pruned = self.obligations = 0
        self.note = self.where = ''
        self.seconds = 0.0


def only_dims(trail):
    return all(k[0] in ('sign',) for k, _, _ in trail)


def reset_all():
    tn.ST.reset()
    EV.reset()
    D.reset_atoms()
    npm.DISK.files.clear()
    npm._ABS.clear()
    npm.ST_ABS.clear()
    evalten.SHAPES.clear()
    npm.GLOBAL_RNG.n = 0
    HOOKS.clear()
    TR.reset()


class World(object):
    def __init__(self, root='/repo'):
        self.sources = models.read_sources(root)
        self.I = models.new_interp(self.sources)
        reset_all()
        self.m = {}
        for name in ('mpnum', 'mpnum.mparray', 'mpnum.mpstruct', 'mpnum.factory', 'mpnum.linalg', 'mpnum.mpsmpo',
                     'mpnum.special', 'mpnum.povm', 'mpnum.povm.mppovm', 'mpnum.povm.localpovm', 'mpnum.utils',
                     'mpnum.utils.physics', 'mpnum.utils.extmath', 'mpnum.utils.array_transforms',
                     'mpnum.utils.pmf', 'mpnum._named_ndarray'):
            try:
                self.m[name] = self.I.load(name)
            except AnalysisSignal:
                raise
            except BaseException as e:
                raise Unsupported('cannot load %s: %s' % (name, e))
        self.aspects = {'value'}
        self.regime, self.regmap, self.regime_default = None, {}, None
        self.inputs = []
        self.dtmap = {}
        self.cfmode = None        # function (name, length) -> (left, right)
        self.bondmode = None      # function (name, length) -> list of bond dimensions

    def fn(self, path):
        """Public construct by dotted path below mpnum, e.g. 'mparray.dot' or 'mparray.MPArray.from_array'."""
        parts = path.split('.')
        for i in range(len(parts) - 1, 0, -1):
            mod = 'mpnum.' + '.'.join(parts[:i])
            if mod in self.m:
                o = self.m[mod]
                for p in parts[i:]:
                    try:
                        o = getattr(o, p)
                    except AttributeError:
                        raise Anchor('anchor %s not found' % path)
                return o
        o = self.m['mpnum']
        for p in parts:
            try:
                o = getattr(o, p)
            except AttributeError:
                raise Anchor('anchor %s not found' % path)
        return o

    # -- exploration --
    def explore(self, case, fn, max_paths=300):
        res = Res(case)
        t0 = time.time()
        prefix = ()
        normal = 0
        undec = None
        excs = []
        while prefix is not None and res.paths < max_paths:
            reset_all()
            ORACLE.reset(prefix)
            self.inputs = []
            self.results = []
            self.pending = []
            self.regime = self.regime_default
            self.regmap = {}
            self.obl = 0
            res.paths += 1
            try:
                fn(self)
                for p in self.pending:
                    self.check_alias(*p)
                normal += 1
                res.obligations += self.obl
            except Violation as v:
                if isinstance(v, BadBonds) and 'value' not in self.aspects:
                    res.pruned += 1
                    prefix = ORACLE.next_prefix()
                    continue
                wit = D.witness(ORACLE.trail)
                if wit is None:
                    undec = 'deviation (%s) only on a path for which no dimensions were found' % v.what
                    prefix = ORACLE.next_prefix()
                    continue
                res.status = 'violated'
                res.note = v.what
                if wit:
                    res.note += ' [e.g. dimensions %s]' % ', '.join('%s=%s' % kv for kv in sorted(wit.items()))
                res.where = v.where_
                res.seconds = time.time() - t0
                return res
            except Pruned as p:
                res.pruned += 1
                if getattr(p, 'exc', None):
                    excs.append(p.exc)
            except Anchor:
                raise
            except Unsupported as u:
                undec = 'not analysable: %s' % u
                res.where = getattr(u, '_where', '')
            except RecursionError:
                undec = 'recursion limit of the engine'
            except Exception as e:
                if getattr(e, '_src', False) or getattr(e, '_model', False):
                    # not caught by the specification: unspecified exception
                    if getattr(e, '_where', '') and 'value' in self.aspects and only_dims(ORACLE.trail) and \
                            D.witness(ORACLE.trail) is not None:
                        # raised inside the library by an access the specification makes on valid data
                        res.status, res.where = 'violated', e._where
                        res.note = 'raises %s(%s)' % (type(e).__name__, str(e)[:200])
                        res.seconds = time.time() - t0
                        return res
                    undec = 'uncaught %s: %s' % (type(e).__name__, e)
                    res.where = getattr(e, '_where', '')
                else:
                    raise
            prefix = ORACLE.next_prefix()
        if prefix is not None and undec is None:
            undec = 'more than %d paths' % max_paths
        if undec is not None:
            res.status, res.note = 'undecided', undec
        elif normal == 0 and excs and len(excs) == res.pruned and 'value' in self.aspects:
            # the input is valid, yet no path through the data-dependent branches returns
            res.status = 'violated'
            res.note, res.where = excs[-1]
        elif normal == 0 or res.obligations == 0:
            res.status = 'vacuous'
            res.note = 'every path ends in a rejection'
        else:
            res.status = 'proved'
        res.seconds = time.time() - t0
        return res

    # -- inputs --
    REGIMES = {'thin': ((5, 7, 6, 5, 7), (2, 3, 2, 3)), 'fat': ((2, 3, 2, 3, 2), (11, 13, 17, 11)),
               'mid': ((3, 2, 3, 2, 3), (3, 4, 5, 3)), 'eq': ((2, 2, 2, 2, 2), (2, 2, 2, 2)),
               'small': ((2, 3, 2, 3, 2), (2, 3, 2, 2))}

    def dim(self, name, lb=2):
        if self.regime is not None:
            ph, bo = self.REGIMES[self.regime]
            if name in self.regmap:
                return self.regmap[name]
            bond = len(name) > 1 and name[1] == 'b'
            n = sum(1 for k in self.regmap if (len(k) > 1 and k[1] == 'b') == bond)
            seq = bo if bond else ph
            self.regmap[name] = seq[n % len(seq)]
            return self.regmap[name]
        return Dim.atom(name, lb)

    def opaque(self, name, shape, dtype=C16):
        """A concrete-shape-free input ndarray."""
        dtype = real.dtype(dtype)
        t = tn.opaque(name, [npm.comps_of(s) for s in shape], dtype.kind != 'c')
        evalten.SHAPES[name] = [s for s in shape if s != 1]
        return Arr(t, dtype)

    def scalar(self, name, dtype=None):
        dtype = dtype if dtype is not None else self.dtmap.get(name, C16)
        if isinstance(dtype, list):
            dtype = dtype[-1]
        dtype = real.dtype(dtype)
        return Sca(tn.opaque(name, [], dtype.kind != 'c'), dtype)

    def array(self, name, shape, dtype=None):
        dtype = dtype if dtype is not None else self.dtmap.get(name, C16)
        if isinstance(dtype, list):
            dtype = dtype[-1]
        a = self.opaque(name, shape, dtype)
        self.inputs.append(('array', name, a, a.val))
        return a

    def ltens(self, name, shapes, bonds, dtypes, left=0, right=None):
        L = len(shapes)
        right = L if right is None else right
        out = []
        full = [1] + list(bonds) + [1]
        for i in range(L):
            sh = (full[i],) + tuple(shapes[i]) + (full[i + 1],)
            nm = '%s%d' % (name, i)
            a = self.opaque(nm, sh, dtypes[i])
            nw = sum(1 for s in sh if s != 1)
            lw = 0 if sh[0] == 1 else 1
            rw = 0 if sh[-1] == 1 else 1
            iso = []
            if i < left:
                iso.append(tuple(range(nw - rw)))
            if i >= right:
                iso.append(tuple(range(lw, nw)))
            if iso:
                if len(iso) > 1 and not isinstance(sh[0], Dim) and not isinstance(sh[-1], Dim) and sh[0] != sh[-1]:
                    raise Pruned()              # isometric both ways only between equal bond dimensions
                for S in iso:
                    wide = [s for s in sh if s != 1]
                    if not any(isinstance(s, Dim) for s in wide):
                        inn = out_ = 1
                        for k, s in enumerate(wide):
                            if k in S:
                                inn *= s
                            else:
                                out_ *= s
                        if out_ > inn:
                            raise Pruned()      # no such canonical form exists
                tn.ST.iso[nm] = iso
                a._iso = iso
            out.append(a)
        return out

    def mpa(self, name, shapes, bonds=None, cform=None, dtype=None, cls=None):
        """An arbitrary MPArray: shapes[i] = physical dimensions at site i."""
        L = len(shapes)
        if bonds is None and self.bondmode is not None:
            bonds = self.bondmode(self, name, L)
        if bonds is None:
            bonds = [self.dim('%sb%d' % (name, i + 1)) for i in range(L - 1)]
        if dtype is None:
            dtype = self.dtmap.get(name, C16)
        dts = [dtype[i % len(dtype)] for i in range(L)] if isinstance(dtype, (list, tuple)) else [dtype] * L
        if cform is None and self.cfmode is not None:
            cform = self.cfmode(name, L)
        left, right = cform if cform is not None else (0, L)
        lts = self.ltens(name, shapes, bonds, dts, left, right)
        LT = self.fn('mpstruct.LocalTensors')
        C = cls or self.fn('mparray.MPArray')
        m = self.I.native(C, (self.I.native(LT, (lts,), dict(cform=(left, right))),))
        self.inputs.append(('mpa', name, m, self.snapshot(m)))
        return m

    # -- observation --
    def lts(self, m):
        return list(self.I.native(list, (m.lt,)))

    def cform(self, m):
        return tuple(m.canonical_form)

    def snapshot(self, m):
        lts = self.lts(m)
        return dict(keys=[l.val.key() for l in lts], dense=self.dense(m, lts), cform=self.cform(m),
                    shapes=[l.shape for l in lts])

    def dense(self, m, lts=None, keep=False):
        """Represented array as Ten: axes = physical legs site by site (outer bonds kept if keep)."""
        lts = self.lts(m) if lts is None else lts
        t = npm.ten_of(lts[0])
        for l in lts[1:]:
            u = npm.ten_of(l)
            if t.shape[-1] != u.shape[0]:
                raise BadBonds('result has inconsistent bond dimensions %s / %s' % (t.shape[-1], u.shape[0]))
            t = tn.tensordot(t, u, [t.ndim - 1], [0])
        if keep:
            return t
        if t.shape[0] != 1 or t.shape[-1] != 1:
            raise BadBonds('result has non-trivial outer bonds (%s, %s)' % (t.shape[0], t.shape[-1]))
        t = tn.drop_axis(t, t.ndim - 1)
        return tn.drop_axis(t, 0)

    def D(self, m):
        """Represented array as abstract ndarray."""
        if hasattr(m, 'lt'):
            lts = self.lts(m)
            return Arr(self.dense(m, lts), npm.promote(*[l.dtype if isinstance(l, Arr) else npm.arr_of(l).dtype
                                                        for l in lts]))
        return npm.arr_of(m)

    def is_mpa(self, x):
        return hasattr(x, 'lt') and hasattr(x, 'canonical_form')

    # -- calls --
    def call(self, f, *args, **kw):
        """Call analysed code; exceptions of the analysed program become violations (or prune the path).

        _generic: the operands are valid whatever their entries are, so that an exception raised under conditions
        which hold at an arbitrary point is a violation as well."""
        generic = kw.pop('_generic', False)
        try:
            r = self.I.call(f, args, kw)
            if hasattr(r, '__next__'):
                r = list(self.I.safe_iter(r))
            return r
        except (Violation, Pruned, AnalysisSignal):
            raise
        except BaseException as e:
            if not (getattr(e, '_src', False) or getattr(e, '_model', False)):
                raise
            if generic and 'value' in self.aspects and not only_dims(ORACLE.trail) and evalten.feasible(False):
                raise Violation('raises %s(%s)' % (type(e).__name__, str(e)[:200]), getattr(e, '_where', ''))
            if not only_dims(ORACLE.trail):
                p = Pruned()
                p.exc = ('raises %s(%s) whatever the data' % (type(e).__name__, str(e)[:200]), getattr(e, '_where', ''))
                raise p
            if 'value' not in self.aspects and 'dtype' not in self.aspects:
                raise Pruned()
            raise Violation('raises %s(%s)' % (type(e).__name__, str(e)[:200]), getattr(e, '_where', ''))

    def rejects(self, f, *args, **kw):
        """The call must raise an ordinary exception."""
        types_ = kw.pop('_types', Exception)
        try:
            r = self.I.call(f, args, kw)
            if hasattr(r, '__next__'):
                r = list(self.I.safe_iter(r))
        except (Violation, Pruned, AnalysisSignal):
            raise
        except BaseException as e:
            if not (getattr(e, '_src', False) or getattr(e, '_model', False)):
                raise
            self.obl += 1
            if not isinstance(e, types_):
                raise Violation('rejected with %s instead of %s' % (type(e).__name__, types_),
                                getattr(e, '_where', ''))
            return e
        if not only_dims(ORACLE.trail) and not evalten.feasible():
            raise Pruned()          # no data was found for which the call returns
        self.obl += 1
        raise Violation('accepted without an error and returned %s' % self.describe(r), self.locate(f))

    def locate(self, f):
        f = getattr(f, '__func__', f)
        n = getattr(f, 'node', None)
        if n is not None:
            return '%s:%s in %s' % (f.file, n.lineno, f.__qualname__)
        return repr(f)

    def describe(self, r):
        if self.is_mpa(r):
            try:
                return 'an MPArray with local shapes %s' % ([l.shape for l in self.lts(r)],)
            except BaseException:
                return 'an MPArray'
        if isinstance(r, (Arr, real.ndarray)):
            return 'an array of shape %s' % (r.shape,)
        return repr(r)[:80]

    # -- obligations --
    def require(self, cond, what, where='', aspect='value'):
        if aspect not in self.aspects:
            return
        self.obl += 1
        if not cond:
            raise Violation(what, where)

    def same(self, got, want, what, where='', aspect='value'):
        """Exact equality of arrays / scalars (abstract values)."""
        if aspect not in self.aspects:
            return
        self.obl += 1
        g = got if isinstance(got, tn.Ten) else npm.ten_of(got)
        e = want if isinstance(want, tn.Ten) else npm.ten_of(want)
        if tuple(g.shape) != tuple(e.shape):
            raise Violation('%s: shape %s instead of %s' % (what, g.shape, e.shape), where)
        if not evalten.same(g, e):
            raise Violation('%s: value differs from the definition' % what, where)

    def result(self, r, dense=None, ranks=None, what='result', f=None, legs=None, fresh=True,
               recanon=(), modified=(), like=None):
        """Obligations on one result of an operation, by aspect."""
        where = self.locate(f) if f is not None else ''
        A = self.aspects
        self.check_inputs(f, recanon, modified=modified)
        if self.is_mpa(r):
            self.results.append(r)
            if 'value' in A:
                if dense is not None:
                    self.same(self.dense(r), dense, what, where)
                if legs is not None:
                    self.require(tuple(l.ndim - 2 for l in self.lts(r)) == tuple(legs),
                                 '%s: legs per site %s instead of %s' % (
                                     what, tuple(l.ndim - 2 for l in self.lts(r)), tuple(legs)), where)
            if 'cform' in A:
                self.check_cform(r, what, where)
            if 'rank' in A:
                if ranks is not None:
                    got = tuple(r.ranks)
                    self.require(got == tuple(ranks), '%s: ranks %s instead of %s' % (what, got, tuple(ranks)),
                                 where, 'rank')
                if dense is not None:
                    d = dense if isinstance(dense, tn.Ten) else npm.ten_of(dense)
                    sh = tuple(x for s in r.shape for x in s)
                    self.require(sh == tuple(d.shape), '%s: reported shape %s, dense shape %s' % (
                        what, sh, tuple(d.shape)), where, 'rank')
        else:
            if 'value' in A and dense is not None:
                self.same(r, dense, what, where)
        if 'dtype' in A and (dense is not None or like is not None):
            self.check_dtype(r, dense if dense is not None else like, what, where, value=dense is not None)
        if 'alias' in A and fresh:
            self.pending.append((r, what, where))

    def check_cform(self, r, what='result', where=''):
        asp = 'cform' if 'cform' in self.aspects else 'value'
        lts = self.lts(r)
        L = len(lts)
        left, right = self.cform(r)
        self.require(isinstance(left, (int, real.integer)) and isinstance(right, (int, real.integer)) and
                     0 <= left < L and 0 < right <= L,
                     '%s: canonical form (%s, %s) out of range for %d sites' % (what, left, right, L), where, asp)
        for i, l in enumerate(lts):
            t = npm.ten_of(l)
            n = t.ndim
            if i < left:
                ax = list(range(n - 1))
                g = tn.tensordot(tn.conj(t), t, ax, ax)
                self.require(evalten.same(g, tn.eye(t.axes[-1])),
                             '%s: claims canonical form (%d, %d) but site %d is not left-isometric' % (
                                 what, left, right, i), where, asp)
            if i >= right:
                ax = list(range(1, n))
                g = tn.tensordot(tn.conj(t), t, ax, ax)
                self.require(evalten.same(g, tn.eye(t.axes[0])),
                             '%s: claims canonical form (%d, %d) but site %d is not right-isometric' % (
                                 what, left, right, i), where, asp)
        self.obl += 1

    def check_dtype(self, r, dense, what, where, value=True):
        want = dense.dtype if isinstance(dense, Arr) else None
        if want is None:
            return
        if self.is_mpa(r):
            ds = [npm.arr_of(l).dtype for l in self.lts(r)]
        else:
            ds = [npm.promote(r) if not isinstance(r, Arr) else r.dtype]
        got = npm.real.result_type(*ds)
        self.require(not EV.casts, '%s: complex values cast to real' % what, where, aspect='dtype')
        if want.kind == 'c':
            self.require(got.kind == 'c', '%s: complex operands but result of dtype %s' % (what, got), where, aspect='dtype')
            if not value:
                pass
            elif self.is_mpa(r):
                self.same(self.dense(r), dense, what, where, aspect='dtype')
            else:
                self.same(r, dense, what, where, aspect='dtype')
        elif want.kind == 'f':
            self.require(got.kind == 'f', '%s: real operands but result of dtype %s' % (what, got), where, aspect='dtype')

    def check_inputs(self, f=None, recanon=(), what='operand', modified=()):
        """No registered input was changed."""
        if 'alias' not in self.aspects:
            return
        where = self.locate(f) if f is not None else ''
        for kind, name, o, snap in self.inputs:
            if name in modified:
                continue
            if kind == 'mpa':
                lts = self.lts(o)
                if name in recanon:
                    self.same(self.dense(o, lts), snap['dense'], '%s %s changed' % (what, name), where, aspect='alias')
                    continue
                self.require([l.shape for l in lts] == snap['shapes'] and
                             [l.val.key() for l in lts] == snap['keys'],
                             '%s %s: local tensors changed' % (what, name), where, aspect='alias')
                self.require(self.cform(o) == snap['cform'], '%s %s: canonical form changed' % (what, name), where, aspect='alias')
            else:
                self.require(evalten.same(o.val, snap), '%s %s: array changed' % (what, name), where, aspect='alias')

    def check_alias(self, r, what, where):
        """In-place changes of the result do not reach the operands and vice versa."""
        if isinstance(r, Arr) and not isinstance(r, Sca):
            self.require(r.flags.writeable, '%s: returned array is read-only' % what, where, aspect='alias')
            before = [(n, o, self.dense(o)) for k, n, o, s in self.inputs if k == 'mpa']
            r[...] = self.opaque('overwrite', ()).item() if r.ndim == 0 else self.scalar('overwrite', r.dtype)
            for n, o, d in before:
                self.require(evalten.same(self.dense(o), d),
                             '%s: overwriting the returned array changes operand %s' % (what, n), where, aspect='alias')
            return
        if not self.is_mpa(r):
            return
        mp_in = [(n, o) for k, n, o, s in self.inputs if k == 'mpa' and o is not r]
        self.require(not any(o is r for k, n, o, s in self.inputs), '%s: the operand itself is returned' % what,
                     where, aspect='alias')
        arr_in = [(n, o) for k, n, o, s in self.inputs if k == 'array']
        before = [(n, o, [l.val.key() for l in self.lts(o)], self.cform(o)) for n, o in mp_in]
        others = [(i, o, [npm.ten_of(l).key() for l in self.lts(o)]) for i, o in enumerate(self.results)
                  if o is not r]
        barr = [(n, o, o.val.key()) for n, o in arr_in]
        import operator
        for what2, act in (('r *= c', lambda: self.I.native(operator.imul, (r, 3))),
                           ('r /= c', lambda: self.I.native(operator.itruediv, (r, 3.0))),
                           ('r.lt.update', lambda: self.I.native(
                               r.lt.update, (0, self.opaque('upd', self.lts(r)[0].shape, C16))))):
            r0 = r
            r = act() or r
            self.require(r is r0, '%s: in-place operation returns a different object' % what, where, aspect='alias')
            for n, o, keys, cf in before:
                self.require([l.val.key() for l in self.lts(o)] == keys and self.cform(o) == cf,
                             '%s: %s changes operand %s' % (what, what2, n), where, aspect='alias')
            for i, o, keys in others:
                self.require([npm.ten_of(l).key() for l in self.lts(o)] == keys,
                             '%s: %s changes another result' % (what, what2), where, aspect='alias')
            for n, o, k in barr:
                self.require(o.val.key() == k, '%s: %s changes array %s' % (what, what2, n), where, aspect='alias')
        # reverse direction
        keys = [npm.ten_of(l).key() for l in self.lts(r)]
        cf = self.cform(r)
        for n, o in mp_in:
            for what2, act in (('imul', lambda: self.I.native(operator.imul, (o, 3))),
                               ('update', lambda: self.I.native(
                                   o.lt.update, (0, self.opaque('upd2', self.lts(o)[0].shape, C16))))):
                act()
                self.require([npm.ten_of(l).key() for l in self.lts(r)] == keys and self.cform(r) == cf,
                             '%s: in-place %s of operand %s changes the result' % (what, what2, n), where, aspect='alias')
        for l in self.lts(r):
            self.require(isinstance(l, Arr) and not l.flags.writeable,
                         '%s: local tensors handed out are writeable' % what, where, aspect='alias')
