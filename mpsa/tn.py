"""The leg-provenance domain: arrays as formal sums of labelled tensor networks.

A Ten has `axes` (each axis a tuple of component dimensions, 1s dropped) and `terms`; a term is
(coef, nodes, outs): nodes are (label, legs), legs are Wires, and every Wire occurs exactly twice among the
legs and the outs (outs: per axis, the wires that make up the axis, most significant first).

Labels
  ('T', name, conj)   opaque tensor `name` (conj is False for real tensors)
  ('sp', dim)         spider: 1 if all legs are equal else 0 (1 leg: ones; 2 legs: identity)
  ('inc', off)        inclusion of an interval: legs (big, small) or (big,) for a basis vector
  ('fu',)             index fusion: legs (big, c1, ..., cn), row-major
  ('rev',)            index reversal
  ('sc', kind, key)   scalar atoms without legs
"""
from .dims import Dim, Unsupported, dmin, prod, exact_div, known_le, cmp_dims, isdimlike


class Wire(object):
    __slots__ = ('dim',)

    def __init__(self, dim):
        self.dim = dim

    def __repr__(self):
        return 'w%x:%s' % (id(self) % 65536, self.dim)


class State(object):
    def __init__(self):
        self.reset()

    def reset(self):
        self.real = set()        # names of real tensors
        self.iso = {}            # name -> list of tuples of leg positions that contract to the identity
        self.pairs = {}          # (name, leg) -> (other name, other leg, E, order)
        self.defs = {}           # name -> Ten it stands for
        self.svd = {}            # ukey -> (names, E)
        self.intern = {}
        self.scalars = {}        # key -> Ten
        self.decomp = {}
        self.posfacts = {}
        self.conds = {}          # key of an unknown condition -> values it is about
        self.fnargs = {}         # name -> (kind, parameters, arguments) of a function application


ST = State()


def intern(x):
    d = ST.intern
    r = d.get(x)
    if r is None:
        r = d[x] = len(d)
    return r


def T(name, conj=False):
    if conj and name in ST.real:
        conj = False
    return ('T', name, conj)


def rcoef(c):
    c = complex(c)
    return (round(c.real, 9) + 0.0, round(c.imag, 9) + 0.0)


# ---------------------------------------------------------------------------------------------
# simplification
# ---------------------------------------------------------------------------------------------
class Zero(Exception):
    pass


class Net(object):
    """Mutable network used while simplifying one term."""

    def __init__(self, coef, nodes, outs):
        self.coef = coef
        self.nodes = {i: [lab, list(legs)] for i, (lab, legs) in enumerate(nodes)}
        self.nid = len(self.nodes)
        self.outs = [list(o) for o in outs]
        self.ends = {}
        for i, (lab, legs) in self.nodes.items():
            for p, w in enumerate(legs):
                self.ends.setdefault(w, []).append((i, p))
        for a, o in enumerate(self.outs):
            for p, w in enumerate(o):
                self.ends.setdefault(w, []).append((-1 - a, p))
        self.dirty = list(self.nodes)
        self.expand = None

    def other(self, i, p):
        w = self.nodes[i][1][p]
        e = self.ends[w]
        return e[1] if e[0] == (i, p) else e[0]

    def setleg(self, ref, w):
        i, p = ref
        if i < 0:
            self.outs[-1 - i][p] = w
        else:
            self.nodes[i][1][p] = w
            self.dirty.append(i)

    def add(self, lab, legs):
        i = self.nid
        self.nid += 1
        self.nodes[i] = [lab, list(legs)]
        for p, w in enumerate(legs):
            self.ends.setdefault(w, []).append((i, p))
        self.dirty.append(i)
        return i

    def drop(self, i):
        """Remove node i; its leg endpoints vanish from `ends`."""
        lab, legs = self.nodes.pop(i)
        for p, w in enumerate(legs):
            e = self.ends[w]
            e.remove((i, p))
            if not e:
                del self.ends[w]
        return legs

    def touch(self, w):
        for i, p in self.ends.get(w, ()):
            if i >= 0:
                self.dirty.append(i)

    def join(self, w1, w2):
        """Both wires have one free end (after drop): merge them."""
        if w1 is w2:
            # closed loop with no ends
            self.scale_dim(w1.dim)
            self.ends.pop(w1, None)
            return
        e2 = self.ends.pop(w2, [])
        e1 = self.ends.setdefault(w1, [])
        for ref in e2:
            self.setleg(ref, w1)
            e1.append(ref)
        self.touch(w1)
        if not e1:
            # both fully free: loop
            self.scale_dim(w1.dim)
            del self.ends[w1]

    def scale_dim(self, d):
        if isinstance(d, int):
            self.coef = self.coef * d
        else:
            self.nodes[self.nid] = [('sc', 'dim', d), []]
            self.nid += 1

    # -- rules ------------------------------------------------------------------------------
    def run(self):
        guard = 0
        while self.dirty:
            guard += 1
            if guard > 20000:
                raise Unsupported('simplification does not terminate')
            i = self.dirty.pop()
            if i not in self.nodes:
                continue
            lab = self.nodes[i][0]
            k = lab[0]
            if k == 'sp':
                self.r_sp(i)
            elif k == 'inc':
                self.r_inc(i)
            elif k == 'fu':
                self.r_fu(i)
            elif k == 'rev':
                self.r_rev(i)
            elif k == 'T':
                if self.r_T(i):
                    return            # expansion pending

    def r_rev(self, i):
        legs = self.nodes[i][1]
        for p in (0, 1):
            j, q = self.other(i, p)
            if j >= 0 and j != i and self.nodes[j][0][0] == 'rev':
                a = legs[1 - p]
                b = self.nodes[j][1][1 - q]
                self.drop(i)
                self.drop(j)
                self.join(a, b)
                return
            if j >= 0 and self.nodes[j][0][0] == 'sp' and len(self.nodes[j][1]) == 1:
                a = legs[1 - p]
                self.drop(i)
                d = self.nodes[j][0]
                self.drop(j)
                self.add(d, [a])
                return

    def r_sp(self, i):
        lab, legs = self.nodes[i]
        # self loops
        seen = {}
        for w in legs:
            seen[w] = seen.get(w, 0) + 1
        if any(c == 2 for c in seen.values()):
            rest = [w for w in legs if seen[w] == 1]
            self.drop(i)
            if rest:
                self.add(lab, rest)
            else:
                self.scale_dim(lab[1])
            return
        if len(legs) == 0:
            self.drop(i)
            self.scale_dim(lab[1])
            return
        if len(legs) == 2:
            a, b = legs
            self.drop(i)
            self.join(a, b)
            return
        for p, w in enumerate(legs):
            j, q = self.other(i, p)
            if j < 0:
                continue
            jl, jlegs = self.nodes[j]
            if jl[0] == 'sp':
                a = self.drop(i)
                b = self.drop(j)
                rest = [x for x in a + b if (a + b).count(x) == 1]
                self.touch(w)
                if rest:
                    self.add(lab, rest)
                else:
                    self.scale_dim(lab[1])
                return
            if jl[0] == 'inc' and q == 0:
                a = self.drop(i)
                b = self.drop(j)
                others = [x for n, x in enumerate(a) if n != p]
                if len(b) == 1:
                    for o in others:
                        self.add(jl, [o])
                else:
                    small = b[1]
                    new = []
                    for o in others:
                        s = Wire(small.dim)
                        self.add(jl, [o, s])
                        new.append(s)
                    self.add(('sp', small.dim), [small] + new)
                return
            if jl[0] == 'fu' and q == 0:
                a = self.drop(i)
                b = self.drop(j)
                others = [x for n, x in enumerate(a) if n != p]
                groups = [[c] for c in b[1:]]
                for o in others:
                    cs = [Wire(c.dim) for c in b[1:]]
                    self.add(('fu',), [o] + cs)
                    for g, c in zip(groups, cs):
                        g.append(c)
                for g in groups:
                    self.add(('sp', g[0].dim), g)
                return

    def r_inc(self, i):
        lab, legs = self.nodes[i]
        off = lab[1]
        big = legs[0]
        if len(legs) == 2 and legs[1].dim == big.dim:
            a, b = self.drop(i)
            self.join(a, b)
            return
        ln = legs[1].dim if len(legs) == 2 else 1
        j, q = self.other(i, 0)
        if j >= 0:
            jl, jlegs = self.nodes[j]
            if jl[0] == 'sp':
                self.r_sp(j)
                return
            if jl[0] == 'inc' and q == 0:
                off2 = jl[1]
                ln2 = jlegs[1].dim if len(jlegs) == 2 else 1
                if off == off2 and ln == ln2:
                    a = self.drop(i)
                    b = self.drop(j)
                    if len(a) == 2:
                        self.join(a[1], b[1])
                    return
                e1, e2 = off + ln, off2 + ln2
                if cmple(e1, off2) or cmple(e2, off):
                    raise Zero()
                lo = off if cmple(off2, off) else off2
                hi = e1 if cmple(e1, e2) else e2
                l3 = hi - lo
                a = self.drop(i)
                b = self.drop(j)
                sa = a[1] if len(a) == 2 else None
                sb = b[1] if len(b) == 2 else None
                if l3 == 1 and isinstance(l3, int):
                    if sa is not None:
                        self.add(('inc', lo - off), [sa])
                    if sb is not None:
                        self.add(('inc', lo - off2), [sb])
                else:
                    x = Wire(l3)
                    y = Wire(l3)
                    self.add(('inc', lo - off), [sa, x])
                    self.add(('inc', lo - off2), [sb, y])
                    self.add(('sp', l3), [x, y])
                return
            if jl[0] == 'inc' and q == 1:
                # our big is the small of j
                a = self.drop(i)
                b = self.drop(j)
                self.add(('inc', off + jl[1]), [b[0]] + a[1:])
                return
            if jl[0] == 'fu' and q == 0:
                comps = jlegs[1:]
                if self.slice_fused(i, j, off, ln, comps):
                    return
        if len(legs) == 2:
            j, q = self.other(i, 1)
            if j >= 0 and self.nodes[j][0][0] == 'inc' and q == 0:
                self.r_inc(j)
                return

    def slice_fused(self, i, j, off, ln, comps):
        # strip trailing components that are taken completely
        n = len(comps)
        best = None
        P = 1
        for c in range(n - 1, -1, -1):
            P2 = P * comps[c].dim
            o, l = exact_div(off, P2) if off != 0 else 0, exact_div(ln, P2)
            if o is None or l is None:
                break
            P = P2
            best = c
        lead = list(comps[:best]) if best is not None else list(comps)
        trail = list(comps[best:]) if best is not None else []
        if not lead:
            return False
        o = exact_div(off, P) if off != 0 else 0
        l = exact_div(ln, P)
        digits = None
        if l == 1 and len(lead) >= 1:
            if len(lead) == 1:
                digits = [o]
            elif all(isinstance(c.dim, int) for c in lead[1:]) and isinstance(o, int):
                digits = []
                r = o
                for c in reversed(lead[1:]):
                    digits.append(r % c.dim)
                    r //= c.dim
                digits.append(r)
                digits.reverse()
        if digits is None and not trail and len(lead) > 1:
            return False
        if digits is None and len(lead) > 1:
            a = self.drop(i)
            b = self.drop(j)
            F = Wire(prod(c.dim for c in lead))
            self.add(('fu',), [F] + lead)
            s = Wire(l)
            self.add(('inc', o), [F, s])
            self.add(('fu',), [a[1], s] + trail)
            return True
        a = self.drop(i)
        b = self.drop(j)
        if digits is not None:
            for d, c in zip(digits, lead):
                self.add(('inc', d), [c])
            if trail:
                self.add(('fu',), [a[1]] + trail)
        else:
            s = Wire(l)
            self.add(('inc', o), [lead[0], s])
            self.add(('fu',), [a[1], s] + trail)
        return True

    def r_fu(self, i):
        lab, legs = self.nodes[i]
        if len(legs) == 2:
            a, b = self.drop(i)
            self.join(a, b)
            return
        j, q = self.other(i, 0)
        if j >= 0 and j != i:
            jl, jlegs = self.nodes[j]
            if jl[0] in ('sp',):
                self.r_sp(j)
                return
            if jl[0] == 'inc' and q == 0:
                self.r_inc(j)
                if j not in self.nodes:
                    return
            if jl[0] == 'fu' and q == 0:
                a = self.drop(i)[1:]
                b = self.drop(j)[1:]
                for ga, gb in align(a, b):
                    if len(ga) == 1 and len(gb) == 1:
                        x = ga[0]
                        self.link(x, gb[0])
                    elif len(ga) == 1:
                        self.add(('fu',), [ga[0]] + gb)
                    elif len(gb) == 1:
                        self.add(('fu',), [gb[0]] + ga)
                    else:
                        F, G = Wire(prod(x.dim for x in ga)), Wire(prod(x.dim for x in ga))
                        # two fusions of different factorisation: keep as is
                        self.nodes[self.nid] = [('fu',), [F] + ga]
                        n1 = self.nid
                        self.nid += 1
                        self.nodes[self.nid] = [('fu',), [F] + gb]
                        n2 = self.nid
                        self.nid += 1
                        for n, g in ((n1, ga), (n2, gb)):
                            self.ends.setdefault(F, []).append((n, 0))
                            for p, w in enumerate(g):
                                self.ends.setdefault(w, []).append((n, p + 1))
                return
            if jl[0] == 'fu' and q > 0:
                # our big is a component of j: flatten
                b = self.drop(j)
                a = self.drop(i)
                self.add(('fu',), b[:q] + a[1:] + b[q + 1:])
                return
        # closed from the component side
        j, q = self.other(i, 1)
        if j >= 0 and j != i and self.nodes[j][0][0] == 'fu' and q == 1:
            jlegs = self.nodes[j][1]
            if len(jlegs) == len(legs) and all(x is y for x, y in zip(legs[1:], jlegs[1:])):
                a = self.drop(i)
                b = self.drop(j)
                self.join(a[0], b[0])
                return
        for p in range(1, len(legs)):
            j, q = self.other(i, p)
            if j >= 0 and j != i and self.nodes[j][0][0] == 'fu' and q == 0:
                self.r_fu(j)
                return

    def link(self, a, b):
        """Connect two wires whose dropped ends faced each other."""
        self.add(('sp', a.dim), [a, b])

    def r_T(self, i):
        lab, legs = self.nodes[i]
        name, cj = lab[1], lab[2]
        for S in ST.iso.get(name, ()):
            if len(S) == 0:
                continue
            j, q = self.other(i, S[0])
            if j < 0 or j == i or q != S[0]:
                continue
            jl, jlegs = self.nodes[j]
            if jl[0] != 'T' or jl[1] != name or (jl[2] == cj and name not in ST.real):
                continue
            if not all(legs[p] is jlegs[p] for p in S):
                continue
            rest = [p for p in range(len(legs)) if p not in S]
            a = self.drop(i)
            b = self.drop(j)
            for p in rest:
                self.link(a[p], b[p])
            return False
        pr = ST.pairs.get(name)
        if pr is not None:
            for leg, (oname, oleg, E, side) in pr.items():
                j, q = self.other(i, leg)
                if j < 0 or j == i or q != oleg:
                    continue
                jl, jlegs = self.nodes[j]
                if jl[0] == 'T' and jl[1] == oname and (jl[2] == cj):
                    a = self.drop(i)
                    b = self.drop(j)
                    rows, cols = (a[:-1], b[1:]) if side == 'L' else (b[:-1], a[1:])
                    self.expand = (E, cj, [rows, cols])
                    return True
        sv = ST.svd.get(name)
        if sv is not None:
            # S node: legs (k,)
            uname, vname, E = sv
            j, q = self.other(i, 0)
            if j >= 0 and self.nodes[j][0][0] == 'sp' and len(self.nodes[j][1]) == 3:
                us = vs = None
                for p in range(3):
                    m, r = self.other(j, p)
                    if m < 0:
                        continue
                    ml, mlegs = self.nodes[m]
                    if ml[0] == 'T' and ml[1] == uname and r == len(mlegs) - 1:
                        us = m
                    if ml[0] == 'T' and ml[1] == vname and r == 0:
                        vs = m
                if us is not None and vs is not None and \
                        (self.nodes[us][0][2] == self.nodes[vs][0][2]):
                    c = self.nodes[us][0][2]
                    a = self.drop(us)
                    b = self.drop(vs)
                    self.drop(j)
                    self.drop(i)
                    for w in list(self.ends):
                        if not self.ends[w]:
                            del self.ends[w]
                    self.expand = (E, c, [a[:-1], b[1:]])
                    return True
        elif name and isinstance(name, tuple) and name[0] in ('U', 'V'):
            k = len(legs) - 1 if name[0] == 'U' else 0
            j, q = self.other(i, k)
            if j >= 0 and self.nodes[j][0][0] == 'sp':
                for p in range(len(self.nodes[j][1])):
                    m, r = self.other(j, p)
                    if m >= 0 and self.nodes[m][0][0] == 'T' and self.nodes[m][0][1] == ('S', name[1]):
                        return self.r_T(m)
        return False

    def result(self):
        return (self.coef, tuple((l, tuple(g)) for l, g in self.nodes.values()),
                tuple(tuple(o) for o in self.outs))


def cmple(a, b):
    k = known_le(a, b)
    if k is None:
        if isinstance(a, int) and isinstance(b, int):
            return a <= b
        d = a - b
        if isinstance(d, int):
            return d <= 0
        return bool(cmp_dims(d, 0, '<='))
    return k


def align(a, b):
    """Split two sequences of wires of equal total dimension into blocks of equal product."""
    out = []
    i = j = 0
    while i < len(a) or j < len(b):
        ga, gb = [], []
        if i < len(a):
            ga.append(a[i])
            i += 1
        if j < len(b):
            gb.append(b[j])
            j += 1
        pa, pb = prod(x.dim for x in ga), prod(x.dim for x in gb)
        while pa != pb:
            if i >= len(a) and j >= len(b):
                break
            # extend the one that divides
            if j < len(b) and (i >= len(a) or exact_div(pa, pb) is not None
                               or not (exact_div(pb, pa) is not None)):
                if exact_div(pb, pa) is not None and i < len(a) and pa != pb and exact_div(pa, pb) is None:
                    ga.append(a[i])
                    i += 1
                else:
                    gb.append(b[j])
                    j += 1
            else:
                ga.append(a[i])
                i += 1
            pa, pb = prod(x.dim for x in ga), prod(x.dim for x in gb)
        out.append((ga, gb))
    return out


def simplify(coef, nodes, outs):
    """-> list of terms"""
    work = [(coef, nodes, outs)]
    done = []
    steps = 0
    while work:
        c, n, o = work.pop()
        if c == 0:
            continue
        net = Net(c, n, o)
        try:
            net.run()
        except Zero:
            continue
        steps += 1
        if steps > 5000:
            raise Unsupported('simplification blow-up')
        if net.expand is None:
            done.append(net.result())
            continue
        E, cj, groups = net.expand
        c, n, o = net.result()
        E2 = conj(E) if cj else E
        for (ec, en, eo) in E2.terms:
            m = {}

            def f(w):
                if w not in m:
                    m[w] = Wire(w.dim)
                return m[w]
            nn = list(n)
            for l, g in en:
                nn.append((l, tuple(f(w) for w in g)))
            for ax, ws in zip(eo, groups):
                assert len(ax) == len(ws), 'axis structure'
                for w, t in zip(ax, ws):
                    nn.append((('sp', t.dim), (f(w), t)))
            work.append((c * ec, tuple(nn), o))
    return done


# ---------------------------------------------------------------------------------------------
# canonical keys
# ---------------------------------------------------------------------------------------------
def term_key(nodes, outs):
    ends = {}
    for i, (lab, legs) in enumerate(nodes):
        for p, w in enumerate(legs):
            ends.setdefault(w, []).append((i, p))
    for a, o in enumerate(outs):
        for p, w in enumerate(o):
            ends.setdefault(w, []).append((-1, (a, p)))
    through = tuple(sorted((e[0][1], e[1][1]) for e in ends.values()
                           if len(e) == 2 and e[0][0] < 0 and e[1][0] < 0))
    n = len(nodes)
    col = []
    nbr = []
    for i, (lab, legs) in enumerate(nodes):
        col.append(intern(('L', lab, tuple(w.dim for w in legs))))
        row = []
        for p, w in enumerate(legs):
            e = ends[w]
            j, q = e[1] if e[0] == (i, p) else e[0]
            if j >= 0 and nodes[j][0][0] == 'sp':
                q = 0
            row.append((j, q))
        nbr.append((row, lab[0] == 'sp'))

    def refine(col):
        ncl = len(set(col))
        while True:
            new = []
            for i in range(n):
                row, un = nbr[i]
                s = [(-1, q) if j < 0 else (col[j], (q,)) for j, q in row]
                if un:
                    s.sort()
                new.append(intern((col[i], tuple(s))))
            k = len(set(new))
            if k == ncl:
                return new
            col, ncl = new, k

    budget = [400]

    def search(col):
        col = refine(col)
        cnt = {}
        for c in col:
            cnt[c] = cnt.get(c, 0) + 1
        multi = sorted(c for c, m in cnt.items() if m > 1 and True)
        # scalar atoms without legs are interchangeable
        multi = [c for c in multi if any(len(nodes[i][1]) for i in range(n) if col[i] == c)]
        if not multi:
            sig = []
            for i in range(n):
                row, un = nbr[i]
                s = [(-1, q) if j < 0 else (col[j], (q,)) for j, q in row]
                if un:
                    s.sort()
                sig.append(intern((col[i], tuple(s))))
            return tuple(sorted(sig))
        c = multi[0]
        best = None
        for i in range(n):
            if col[i] == c:
                budget[0] -= 1
                if budget[0] < 0 and best is not None:
                    break
                col2 = list(col)
                col2[i] = intern(('ind', c))
                k = search(col2)
                if best is None or k < best:
                    best = k
        return best
    return (through, search(col))


def components(nodes, outs):
    """Split into the open part and the closed connected components (lists of nodes)."""
    ends = {}
    for i, (lab, legs) in enumerate(nodes):
        for w in legs:
            ends.setdefault(w, []).append(i)
    openw = {w for o in outs for w in o}
    seen = set()
    closed, opened = [], []
    for i in range(len(nodes)):
        if i in seen:
            continue
        stack, comp, isopen = [i], [], False
        seen.add(i)
        while stack:
            j = stack.pop()
            comp.append(j)
            for w in nodes[j][1]:
                if w in openw:
                    isopen = True
                for m in ends[w]:
                    if m not in seen:
                        seen.add(m)
                        stack.append(m)
        (opened if isopen else closed).append([nodes[j] for j in comp])
    return [x for c in opened for x in c], closed


def cancel_scalars(term):
    """inv(x) * x -> 1, sqrt(x) * sqrt(x) -> x."""
    c, nodes, outs = term
    inv = [i for i, (l, g) in enumerate(nodes) if l[0] == 'sc' and l[1] in ('inv', 'sqrt')]
    if not inv:
        return [term]
    opened, closed = components(nodes, outs)
    keyed = []
    for comp in closed:
        keyed.append([term_key(tuple(comp), ()), comp])
    changed = True
    extra = None
    while changed:
        changed = False
        for x in keyed:
            lab = x[1][0][0]
            if len(x[1]) == 1 and lab[0] == 'sc' and lab[1] == 'inv':
                for y in keyed:
                    if y is not x and y[0] == lab[2]:
                        keyed = [z for z in keyed if z is not x and z is not y]
                        changed = True
                        break
            if changed:
                break
            if len(x[1]) == 1 and lab[0] == 'sc' and lab[1] == 'sqrt':
                for y in keyed:
                    if y is not x and y[1][0][0] == lab and len(y[1]) == 1:
                        keyed = [z for z in keyed if z is not x and z is not y]
                        extra = ST.scalars[lab[2]]
                        changed = True
                        break
            if changed:
                break
        if extra is not None:
            break
    nodes = list(opened)
    for k, comp in keyed:
        nodes.extend(comp)
    if extra is None:
        return [(c, tuple(nodes), outs)]
    res = []
    for ec, en, eo in extra.terms:
        fr = _fresh((ec, en, eo))
        res.extend(cancel_scalars((c * ec, tuple(nodes) + fr[1], outs)))
    return res


# ---------------------------------------------------------------------------------------------
# tensors
# ---------------------------------------------------------------------------------------------
def _fresh(term):
    c, nodes, outs = term
    m = {}

    def f(w):
        r = m.get(w)
        if r is None:
            r = m[w] = Wire(w.dim)
        return r
    return (c, tuple((l, tuple(f(w) for w in g)) for l, g in nodes),
            tuple(tuple(f(w) for w in o) for o in outs))


class Ten(object):
    __slots__ = ('axes', 'terms', '_key')

    def __init__(self, axes, terms):
        self.axes = axes
        self.terms = terms
        self._key = None

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def shape(self):
        return tuple(prod(a) for a in self.axes)

    def key(self):
        if self._key is None:
            d = {}
            for c, n, o in self.terms:
                k = term_key(n, o)
                d[k] = d.get(k, 0) + c
            items = tuple(sorted((k, rcoef(c)) for k, c in d.items() if abs(c) > 1e-9))
            self._key = intern(('TEN', tuple(self.axes), items))
        return self._key

    def __repr__(self):
        return 'Ten%s[%d terms]' % (self.shape, len(self.terms))


def make(axes, raw):
    """Ten from raw terms, simplified and collected."""
    out = []
    for c, n, o in raw:
        for t in simplify(c, n, o):
            out.extend(cancel_scalars(t))
    if len(out) > 400:
        raise Unsupported('too many terms')
    t = Ten(tuple(axes), out)
    if len(out) > 1:
        t.terms = collect(out)
    return t


def collect(terms):
    d = {}
    order = []
    for c, n, o in terms:
        k = term_key(n, o)
        if k in d:
            d[k][0] = d[k][0] + c
        else:
            d[k] = [c, n, o]
            order.append(k)
    return [tuple(d[k]) for k in order if abs(d[k][0]) > 1e-12]


def scalar(c):
    return Ten((), [(c, (), ())] if c != 0 else [])


def dimscalar(d):
    if isinstance(d, int):
        return scalar(d)
    r = []
    for m, c in d.terms.items():
        nodes = []
        for a, e in m:
            nodes.extend([(('sc', 'dim', Dim({((a, 1),): 1})), ())] * e)
        r.append((c, tuple(nodes), ()))
    return Ten((), r)


def opaque(name, axes, real=False):
    """A fresh opaque tensor with the given axes (tuples of component dims)."""
    if real:
        ST.real.add(name)
    axes = tuple(tuple(d for d in a if d != 1) for a in axes)
    outs = tuple(tuple(Wire(d) for d in a) for a in axes)
    legs = tuple(w for o in outs for w in o)
    return Ten(axes, [(1, ((T(name), legs),), outs)])


def zeros(axes):
    return Ten(tuple(tuple(d for d in a if d != 1) for a in axes), [])


def ones(axes):
    axes = tuple(tuple(d for d in a if d != 1) for a in axes)
    outs = tuple(tuple(Wire(d) for d in a) for a in axes)
    return Ten(axes, [(1, tuple((('sp', w.dim), (w,)) for o in outs for w in o), outs)])


def eye(axis):
    axis = tuple(d for d in axis if d != 1)
    ws = tuple(Wire(d) for d in axis)
    return Ten((axis, axis), [(1, (), (ws, ws))])


def delta(axis, n):
    """1 on the diagonal of n equal axes."""
    axis = tuple(d for d in axis if d != 1)
    outs = [[] for _ in range(n)]
    nodes = []
    for d in axis:
        ws = [Wire(d) for _ in range(n)]
        nodes.append((('sp', d), tuple(ws)))
        for o, w in zip(outs, ws):
            o.append(w)
    return make((axis,) * n, [(1, tuple(nodes), tuple(tuple(o) for o in outs))])


def basis(dim, i):
    if dim == 1:
        return Ten(((),), [(1, (), ((),))])
    w = Wire(dim)
    return Ten(((dim,),), [(1, ((('inc', i), (w,)),), ((w,),))])


def conj(t):
    def cl(l):
        if l[0] == 'T':
            return T(l[1], not l[2])
        if l[0] == 'sc' and l[1] == 'val':
            return ('sc', 'val', l[2])
        return l
    return Ten(t.axes, [(c.conjugate() if isinstance(c, complex) else c,
                         tuple((cl(l), g) for l, g in n), o) for c, n, o in t.terms])


def scale(t, c):
    if c == 0:
        return Ten(t.axes, [])
    return Ten(t.axes, [(tc * c, n, o) for tc, n, o in t.terms])


def transpose(t, perm):
    return Ten(tuple(t.axes[p] for p in perm),
               [(c, n, tuple(o[p] for p in perm)) for c, n, o in t.terms])


def regroup(t, axes_slices):
    """New axes as concatenations of old components; axes_slices: per new axis list of (axis, pos)."""
    axes = tuple(tuple(t.axes[a][p] for a, p in g) for g in axes_slices)
    return Ten(axes, [(c, n, tuple(tuple(o[a][p] for a, p in g) for g in axes_slices)) for c, n, o in t.terms])


def recomp(t, axis, comps):
    """Change the component structure of one axis to `comps` (same product)."""
    old = t.axes[axis]
    comps = tuple(d for d in comps if d != 1)
    if old == comps:
        return t
    if prod(old) != prod(comps):
        raise Unsupported('component mismatch %s vs %s' % (old, comps))
    raw = []
    for c, n, o in t.terms:
        nn = list(n)
        aw = list(o[axis])
        bw = [Wire(d) for d in comps]
        for ga, gb in align(aw, bw):
            if len(ga) == 1 and len(gb) == 1:
                nn.append((('sp', ga[0].dim), (ga[0], gb[0])))
            else:
                if len(ga) == 1:
                    F = ga[0]
                else:
                    F = Wire(prod(x.dim for x in ga))
                    nn.append((('fu',), (F,) + tuple(ga)))
                if len(gb) == 1:
                    nn.append((('sp', F.dim), (F, gb[0])))
                else:
                    nn.append((('fu',), (F,) + tuple(gb)))
        raw.append((c, tuple(nn), o[:axis] + (tuple(bw),) + o[axis + 1:]))
    return make(t.axes[:axis] + (comps,) + t.axes[axis + 1:], raw)


def common_comps(a, b):
    """Common refinement (or coarsening, blockwise) of two component tuples of equal product."""
    if a == b:
        return a
    out = []
    for ga, gb in align([Wire(d) for d in a], [Wire(d) for d in b]):
        da, db = tuple(w.dim for w in ga), tuple(w.dim for w in gb)
        if da == db:
            out.extend(da)
        elif len(da) == 1:
            out.extend(db)
        elif len(db) == 1:
            out.extend(da)
        else:
            out.append(prod(da))
    return tuple(out)


def unify(ts, axes):
    """Give axis axes[i] of ts[i] the same components in all tensors."""
    comps = ts[0].axes[axes[0]]
    for t, a in zip(ts[1:], axes[1:]):
        comps = common_comps(comps, t.axes[a])
    return [recomp(t, a, comps) for t, a in zip(ts, axes)]


class ShapeError(Exception):
    pass


def reshape(t, shape):
    """Row-major reshape; shape without -1; product already checked."""
    flat = [(a, p) for a in range(len(t.axes)) for p in range(len(t.axes[a]))]
    dims = [t.axes[a][p] for a, p in flat]
    t1 = regroup(t, [[x] for x in flat])         # one axis per component
    target = [d for d in shape]
    groups = align([Wire(d) for d in dims], [Wire(d) for d in target if d != 1])
    # build per-block conversions
    blocks = []
    i = 0
    for ga, gb in groups:
        blocks.append((list(range(i, i + len(ga))), [w.dim for w in gb]))
        i += len(ga)
    cur = t1
    # merge the component axes of each block into one axis
    cur = regroup(cur, [[(a, 0) for a in b[0]] for b in blocks])
    # split each block axis into its target axes
    res_axes = []
    for bi, (ca, gd) in enumerate(blocks):
        comps = cur.axes[bi]
        if len(gd) == 1:
            continue
        if len(comps) == 0:
            continue
        if tuple(comps) != tuple(gd):
            cur = recomp(cur, bi, tuple(gd))
    sl = []
    for bi, (ca, gd) in enumerate(blocks):
        if len(gd) == 1:
            sl.append([(bi, p) for p in range(len(cur.axes[bi]))])
        else:
            for p in range(len(gd)):
                sl.append([(bi, p)])
    # insert axes of dimension 1
    full = []
    it = iter(sl)
    for d in target:
        if d == 1:
            full.append([])
        else:
            full.append(next(it))
    return regroup(cur, full)


def add(*ts):
    nd = ts[0].ndim
    ts = list(ts)
    for a in range(nd):
        ts = unify(ts, [a] * len(ts))
    terms = [x for t in ts for x in t.terms]
    if len([t for t in ts if t.terms]) > 1:
        terms = collect(terms)
    return Ten(ts[0].axes, list(terms))


def _merge(tA, tB, pairs):
    """Network product of two terms, joining out wires in `pairs` [(wa, wb)]; wires of tB are fresh.
    Returns (coef, nodes) with identity spiders for the joins."""
    ca, na, oa = tA
    cb, nb, ob = tB
    nodes = list(na) + list(nb)
    for a, b in pairs:
        nodes.append((('sp', a.dim), (a, b)))
    return ca * cb, tuple(nodes)


def _undefined(t):
    return any(lab[0] == 'T' and lab[1] in ('nan', 'inf') for _, nodes, _ in t.terms for lab, _ in nodes)


def _poisoned(ts):
    """0 * nan and 0 * inf are nan: operands to contract instead, or None if no such product occurs."""
    if all(t.terms for t in ts) or not any(_undefined(t) for t in ts):
        return None
    out = []
    for t in ts:
        if not t.terms:
            t = ones(t.axes)
        elif _undefined(t):
            raw = []
            for c, n, o in t.terms:
                if any(lab[0] == 'T' and lab[1] in ('nan', 'inf') for lab, _ in n):
                    raw.append((c, tuple((T('nan'), g) if lab[0] == 'T' and lab[1] in ('nan', 'inf') else (lab, g)
                                         for lab, g in n), o))
            ST.real.add('nan')
            t = make(t.axes, raw)
        out.append(t)
    return out


def tensordot(A, B, axA, axB):
    if not (A.terms and B.terms):
        p = _poisoned([A, B])
        if p:
            A, B = p
    for a, b in zip(axA, axB):
        if prod(A.axes[a]) != prod(B.axes[b]):
            raise ShapeError('shape-mismatch for sum')
        if A.axes[a] != B.axes[b]:
            c = common_comps(A.axes[a], B.axes[b])
            A = recomp(A, a, c)
            B = recomp(B, b, c)
    keepA = [i for i in range(A.ndim) if i not in axA]
    keepB = [i for i in range(B.ndim) if i not in axB]
    raw = []
    for ta in A.terms:
        for tb in B.terms:
            fb = _fresh(tb)
            pairs = [(x, y) for a, b in zip(axA, axB) for x, y in zip(ta[2][a], fb[2][b])]
            c, n = _merge(ta, fb, pairs)
            raw.append((c, n, tuple(ta[2][i] for i in keepA) + tuple(fb[2][i] for i in keepB)))
    # A's own terms may be reused: wires of ta occur in several raw terms, which is fine (networks are separate)
    return make([A.axes[i] for i in keepA] + [B.axes[i] for i in keepB], raw)


def self_einsum(t, groups_out, groups_sum):
    """General single-operand diagonal/trace/sum.

    groups_out: list of lists of axes that are identified and kept as one axis;
    groups_sum: list of lists of axes that are identified and summed.
    """
    for g in groups_out + groups_sum:
        if len(g) > 1:
            comps = t.axes[g[0]]
            for a in g[1:]:
                if prod(t.axes[a]) != prod(comps):
                    raise ShapeError('diagonal of unequal dimensions')
                comps = common_comps(comps, t.axes[a])
            for a in g:
                t = recomp(t, a, comps)
    raw = []
    for c, n, o in t.terms:
        nn = list(n)
        outs = []
        for g in groups_out:
            if len(g) == 1:
                outs.append(o[g[0]])
            else:
                ow = []
                for p, d in enumerate(t.axes[g[0]]):
                    w = Wire(d)
                    nn.append((('sp', d), tuple(o[a][p] for a in g) + (w,)))
                    ow.append(w)
                outs.append(tuple(ow))
        for g in groups_sum:
            for p, d in enumerate(t.axes[g[0]]):
                nn.append((('sp', d), tuple(o[a][p] for a in g)))
        raw.append((c, tuple(nn), tuple(outs)))
    return make([t.axes[g[0]] for g in groups_out], raw)


def einsum(ins, out, ts):
    """ins: list of index lists (hashable labels), out: index list, ts: tensors."""
    dims = {}
    ts = list(ts)
    if not all(t.terms for t in ts):
        ts = _poisoned(ts) or ts
    for lab, t in zip(ins, ts):
        if len(lab) != t.ndim:
            raise ShapeError('einsum: operand has wrong number of dimensions')
        for x, a in zip(lab, t.axes):
            if x in dims:
                if prod(dims[x]) != prod(a):
                    raise ShapeError('einsum: dimension mismatch')
                dims[x] = common_comps(dims[x], a)
            else:
                dims[x] = a
    for i, lab in enumerate(ins):
        for p, x in enumerate(lab):
            ts[i] = recomp(ts[i], p, dims[x])
    # note: recomp of one label may refine; dims[x] is final here
    cur = [(1, (), [])]      # (coef, nodes, list of (label, wires))
    for lab, t in zip(ins, ts):
        nxt = []
        for c0, n0, l0 in cur:
            for term in t.terms:
                c, n, o = _fresh(term)
                nxt.append((c0 * c, n0 + n, l0 + list(zip(lab, o))))
        cur = nxt
    raw = []
    for c, n, l in cur:
        by = {}
        for x, ws in l:
            by.setdefault(x, []).append(ws)
        nn = list(n)
        outs = {}
        for x, groups in by.items():
            ow = []
            for p, d in enumerate(dims[x]):
                legs = tuple(g[p] for g in groups)
                if x in out:
                    w = Wire(d)
                    legs = legs + (w,)
                    ow.append(w)
                nn.append((('sp', d), legs))
            outs[x] = tuple(ow)
        raw.append((c, tuple(nn), tuple(outs[x] for x in out)))
    return make([dims[x] for x in out], raw)


def hadamard(A, B):
    """Elementwise product with equal shapes."""
    n = A.ndim
    for a in range(n):
        if A.axes[a] != B.axes[a]:
            c = common_comps(A.axes[a], B.axes[a])
            A = recomp(A, a, c)
            B = recomp(B, a, c)
    lab = list(range(n))
    return einsum([lab, lab], lab, [A, B])


def outer(A, B):
    return tensordot(A, B, [], [])


def slice_axis(t, axis, off, ln):
    """Contiguous slice; ln may be 1 (axis of dimension one stays)."""
    d = prod(t.axes[axis])
    if off == 0 and ln == d:
        return t
    if ln == 0:
        raise Unsupported('empty slice')
    raw = []
    newcomp = () if ln == 1 else (ln,)
    for c, n, o in t.terms:
        nn = list(n)
        ws = o[axis]
        if len(ws) == 0:
            if ln != 1:
                raise ShapeError('slice')
            raw.append((c, n, o))
            continue
        if len(ws) == 1:
            F = ws[0]
        else:
            F = Wire(d)
            nn.append((('fu',), (F,) + tuple(ws)))
        if ln == 1:
            nn.append((('inc', off), (F,)))
            no = ()
        else:
            s = Wire(ln)
            nn.append((('inc', off), (F, s)))
            no = (s,)
        raw.append((c, tuple(nn), o[:axis] + (no,) + o[axis + 1:]))
    r = make(t.axes[:axis] + (newcomp,) + t.axes[axis + 1:], raw)
    return r


def embed_axis(t, axis, off, total):
    """Embed axis into a larger one of dimension total at offset off (zeros elsewhere)."""
    d = prod(t.axes[axis])
    if off == 0 and d == total:
        return t
    raw = []
    for c, n, o in t.terms:
        nn = list(n)
        ws = o[axis]
        F = Wire(total)
        if len(ws) == 0:
            nn.append((('inc', off), (F,)))
        elif len(ws) == 1:
            nn.append((('inc', off), (F, ws[0])))
        else:
            s = Wire(d)
            nn.append((('fu',), (s,) + tuple(ws)))
            nn.append((('inc', off), (F, s)))
        raw.append((c, tuple(nn), o[:axis] + ((F,),) + o[axis + 1:]))
    return make(t.axes[:axis] + ((total,),) + t.axes[axis + 1:], raw)


def drop_axis(t, axis):
    """Remove an axis of dimension 1."""
    if t.axes[axis] != ():
        raise ShapeError('axis is not of dimension one')
    return Ten(t.axes[:axis] + t.axes[axis + 1:],
               [(c, n, o[:axis] + o[axis + 1:]) for c, n, o in t.terms])


def insert_axis(t, axis):
    return Ten(t.axes[:axis] + ((),) + t.axes[axis:],
               [(c, n, o[:axis] + ((),) + o[axis:]) for c, n, o in t.terms])


def reverse_axis(t, axis):
    raw = []
    for c, n, o in t.terms:
        nn = list(n)
        new = []
        for w in o[axis]:
            v = Wire(w.dim)
            nn.append((('rev',), (w, v)))
            new.append(v)
        raw.append((c, tuple(nn), o[:axis] + (tuple(new),) + o[axis + 1:]))
    return make(t.axes, raw)


def concat(ts, axis):
    total = 0
    for t in ts:
        total = total + prod(t.axes[axis])
    ts = list(ts)
    for a in range(ts[0].ndim):
        if a == axis:
            continue
        for t in ts[1:]:
            if prod(t.axes[a]) != prod(ts[0].axes[a]):
                raise ShapeError('all the input array dimensions except for the concatenation axis must match')
        ts = unify(ts, [a] * len(ts))
    if len(ts) == 1:
        return ts[0]
    off = 0
    out = []
    for t in ts:
        d = prod(t.axes[axis])
        out.append(embed_axis(t, axis, off, total))
        off = off + d
    return add(*out)


def equal(a, b):
    """Semantic equality of two tensors (same shape, same normal form)."""
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.axes, b.axes):
        if prod(x) != prod(y):
            return False
    for ax in range(a.ndim):
        if a.axes[ax] != b.axes[ax]:
            c = common_comps(a.axes[ax], b.axes[ax])
            a = recomp(a, ax, c)
            b = recomp(b, ax, c)
    return a.key() == b.key()


# -- scalar functions --------------------------------------------------------------------------
def _split_single(x):
    if len(x.terms) != 1:
        return None
    c, n, o = x.terms[0]
    opened, closed = components(n, o)
    if opened:
        return None
    return c, closed


def inv(x):
    """1/x for a scalar Ten."""
    if not x.terms:
        raise ZeroDivisionError('division by zero')
    s = _split_single(x)
    if s is None:
        k = x.key()
        ST.scalars[k] = x
        return Ten((), [(1, ((('sc', 'inv', ('ten', k)), ()),), ())])
    c, closed = s
    nodes = []
    for comp in closed:
        lab = comp[0][0]
        if len(comp) == 1 and lab[0] == 'sc' and lab[1] == 'inv' and lab[2][0] == 'ten':
            # inv(inv(x))
            return Ten((), [(t[0] / c,) + t[1:] for t in outer(
                Ten((), [(1, tuple(nodes), ())]), ST.scalars[lab[2][1]]).terms])
        kk = term_key(tuple(comp), ())
        ST.scalars.setdefault(('c', kk), Ten((), [(1, tuple(comp), ())]))
        nodes.append((('sc', 'inv', kk), ()))
    ci = 1 / c if not isinstance(c, int) or c not in (1, -1) else c
    return make((), [(ci, tuple(nodes), ())])


def fn(name, x, real=True):
    """Opaque scalar/elementwise function of x; returns opaque tensor of the same axes."""
    key = x.key()
    ST.scalars.setdefault(key, x)
    if x.ndim == 0 or all(a == () for a in x.axes):
        if not x.terms and name == 'sqrt':
            return x
        if name == 'sqrt':
            s = _split_single(x)
            if s is not None:
                c, closed = s
                if (isinstance(c, (int, float)) and c >= 0):
                    nodes = []
                    for comp in closed:
                        k = term_key(tuple(comp), ())
                        ST.scalars.setdefault(('c', k), Ten((), [(1, tuple(comp), ())]))
                        nodes.append((('sc', 'sqrt', ('c', k)), ()))
                    r = c ** 0.5
                    return make(x.axes, [(r, tuple(nodes), tuple(() for _ in x.axes))])
            return Ten(x.axes, [(1, ((('sc', 'sqrt', key), ()),), tuple(() for _ in x.axes))])
        return Ten(x.axes, [(1, ((T(_nm(('fn', name, key), real)), ()),), tuple(() for _ in x.axes))])
    return opaque(_nm(('fn', name, key), real), x.axes, real)


def func(kind, args, axes, real=False, params=()):
    """An application of a named function to tensors: uninterpreted in normal forms, evaluated at random points."""
    name = ('f', kind, tuple(params), tuple(a.key() for a in args))
    ST.fnargs.setdefault(name, (kind, tuple(params), tuple(args)))
    return opaque(name, axes, real)


def _nm(name, real):
    if real:
        ST.real.add(name)
    return name
