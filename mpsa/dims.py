"""Symbolic dimensions: integer polynomials in positive atoms, generic-point equality.

An atom stands for an arbitrary integer >= its lower bound (2 unless stated otherwise; the case 1 is a
separate context with the literal integer 1).  min(a, b) of incomparable dimensions is an atom of its own.
"""
import numbers
from math import gcd


class AnalysisSignal(BaseException):
    """Base of all control signals of the analysis; never visible to analysed code."""


class Unsupported(AnalysisSignal):
    """The analysis has no abstract semantics for a construct: the obligation is undecided."""


class Oracle(object):
    """Decides unknown conditions: replays a prefix of choices and records the rest."""

    def __init__(self):
        self.reset(())

    def reset(self, prefix):
        self.prefix = list(prefix)
        self.trail = []          # list of (key, index, n_options)
        self.memo = {}
        self.fresh = 0
        self.limit = 60

    def choose(self, key, n=2):
        if key in self.memo:
            return self.memo[key]
        pos = len(self.trail)
        if pos >= self.limit:
            raise Unsupported('too many unresolved conditions on one path')
        idx = self.prefix[pos] if pos < len(self.prefix) else 0
        self.trail.append((key, idx, n))
        self.memo[key] = idx
        return idx

    def next_prefix(self):
        """Next choice sequence in depth-first order or None."""
        t = [list(x) for x in self.trail]
        while t and t[-1][1] + 1 >= t[-1][2]:
            t.pop()
        if not t:
            return None
        t[-1][1] += 1
        return [x[1] for x in t]


ORACLE = Oracle()
_LB = {}          # atom -> lower bound (default 2)
_MINARGS = {}     # atom -> tuple of Dim args for min-atoms


def reset_atoms():
    _LB.clear()
    _MINARGS.clear()


def _norm(terms):
    terms = {m: c for m, c in terms.items() if c != 0}
    if not terms:
        return 0
    if len(terms) == 1 and () in terms:
        return terms[()]
    return Dim(terms)


def _terms(x):
    if isinstance(x, Dim):
        return x.terms
    return {(): int(x)} if x else {}


def _mulmono(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


def isdimlike(x):
    return isinstance(x, Dim) or (isinstance(x, numbers.Integral) and not isinstance(x, bool))


class Dim(object):
    __slots__ = ('terms', '_h')

    def __init__(self, terms):
        self.terms = terms
        self._h = None

    @staticmethod
    def atom(name, lb=2):
        if lb != 2:
            _LB[name] = lb
        return Dim({((name, 1),): 1})

    def key(self):
        return tuple(sorted(self.terms.items()))

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, Dim):
            return self.terms == o.terms
        if isinstance(o, numbers.Number):
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __add__(self, o):
        if not isdimlike(o):
            return NotImplemented
        t = dict(self.terms)
        for m, c in _terms(o).items():
            t[m] = t.get(m, 0) + c
        return _norm(t)
    __radd__ = __add__

    def __neg__(self):
        return _norm({m: -c for m, c in self.terms.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if not isdimlike(o):
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        if not isdimlike(o):
            return NotImplemented
        return (-self) + o

    def __mul__(self, o):
        if not isdimlike(o):
            return NotImplemented
        t = {}
        for m1, c1 in self.terms.items():
            for m2, c2 in _terms(o).items():
                m = _mulmono(m1, m2)
                t[m] = t.get(m, 0) + c1 * c2
        return _norm(t)
    __rmul__ = __mul__

    def __pow__(self, n):
        if not isinstance(n, int) or n < 0:
            return NotImplemented
        r = 1
        for _ in range(n):
            r = self * r
        return r

    def __floordiv__(self, o):
        if not isdimlike(o):
            return NotImplemented
        q = exact_div(self, o)
        if q is None:
            raise Unsupported('inexact division of dimensions')
        return q

    def __rfloordiv__(self, o):
        if not isdimlike(o):
            return NotImplemented
        q = exact_div(o, self)
        if q is None:
            raise Unsupported('inexact division of dimensions')
        return q

    def __mod__(self, o):
        if not isdimlike(o):
            return NotImplemented
        if exact_div(self, o) is not None:
            return 0
        raise Unsupported('remainder of dimensions')

    def __divmod__(self, o):
        return self // o, self % o

    def __lt__(self, o):
        return cmp_dims(self, o, '<')

    def __le__(self, o):
        return cmp_dims(self, o, '<=')

    def __gt__(self, o):
        return cmp_dims(self, o, '>')

    def __ge__(self, o):
        return cmp_dims(self, o, '>=')

    def __bool__(self):
        return self != 0

    def __abs__(self):
        return self if self >= 0 else -self

    def __str__(self):
        out = []
        for m, c in sorted(self.terms.items()):
            mono = '*'.join((n if isinstance(n, str) else 'min%s' % (n[1],)) + ('^%d' % e if e > 1 else '')
                            for n, e in m)
            out.append(str(c) if not mono else (mono if c == 1 else '%d*%s' % (c, mono)))
        return '(' + '+'.join(out) + ')' if len(out) > 1 else out[0]
    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def bit_length(self):
        raise Unsupported('bit_length of dimension')


def exact_div(a, b):
    """a / b if it is an integer polynomial, else None."""
    if isinstance(a, int) and isinstance(b, int):
        if b == 0 or a % b:
            return None
        return a // b
    if b == 1:
        return a
    ta, tb = dict(_terms(a)), _terms(b)
    if not tb:
        return None
    lead = max(tb)
    lc = tb[lead]
    q = {}
    steps = 0
    while ta:
        steps += 1
        if steps > 200:
            return None
        # find a monomial divisible by lead: take max
        cand = None
        for m in sorted(ta, reverse=True):
            d = dict(m)
            ok = True
            for k, e in lead:
                if d.get(k, 0) < e:
                    ok = False
                    break
            if ok and ta[m] % lc == 0:
                cand = m
                break
        if cand is None:
            return None
        d = dict(cand)
        for k, e in lead:
            d[k] -= e
            if d[k] == 0:
                del d[k]
        qm = tuple(sorted(d.items()))
        qc = ta[cand] // lc
        q[qm] = q.get(qm, 0) + qc
        for m, c in tb.items():
            mm = _mulmono(qm, m)
            ta[mm] = ta.get(mm, 0) - qc * c
            if ta[mm] == 0:
                del ta[mm]
    return _norm(q)


def _subst(p, atom, val):
    r = 0
    for m, c in _terms(p).items():
        t = c
        for k, e in m:
            t = t * (val ** e if k == atom else Dim({((k, 1),): 1}) ** e)
        r = r + t
    return r


def lower(atom):
    return _LB.get(atom, 2)


def _sign_basic(p):
    """Sign for all atoms at or above their bound: 1 (>0), 0.5 (>=0), -1, -0.5, 0 (==0) or None."""
    if isinstance(p, int):
        return (p > 0) - (p < 0)
    atoms = {k for m in p.terms for k, _ in m}
    r = p
    for a in atoms:
        lb = lower(a)
        if lb:
            r = _subst(r, a, Dim({((a, 1),): 1}) + lb)
    t = _terms(r)
    if all(c >= 0 for c in t.values()):
        return 1 if t.get((), 0) > 0 else 0.5
    if all(c <= 0 for c in t.values()):
        return -1 if t.get((), 0) < 0 else -0.5
    return None


def sign(p, depth=0):
    s = _sign_basic(p)
    if s is not None or depth > 4:
        return s
    mins = sorted({k for m in p.terms for k, _ in m if k in _MINARGS}, key=str)
    for a in mins:
        args = _MINARGS[a]
        vals = [sign(_subst(p, a, v), depth + 1) for v in args]
        if all(v is not None and v > 0 for v in vals):
            return min(vals)
        if all(v is not None and v < 0 for v in vals):
            return max(vals)
        # linear occurrence: monotone bounds
        if all(e == 1 for m in p.terms for k, e in m if k == a):
            coef = {}
            for m, c in p.terms.items():
                if any(k == a for k, _ in m):
                    mm = tuple((k, e) for k, e in m if k != a)
                    coef[mm] = coef.get(mm, 0) + c
            cs = _sign_basic(_norm(coef))
            # upper bounds of the minimum: its arguments and the minima over fewer arguments
            bounds = list(vals)
            for b in mins:
                if b != a and all(any(x == y for y in args) for x in _MINARGS[b]):
                    bounds.append(sign(_subst(p, a, Dim({((b, 1),): 1})), depth + 1))
            if cs is not None and cs < 0:
                good = [v or 0.5 for v in bounds if v is not None and v >= 0]
                if good:
                    return max(good)
            if cs is not None and cs > 0:
                good = [v or -0.5 for v in bounds if v is not None and v <= 0]
                if good:
                    return min(good)
    return None


def _canon(p):
    k = sorted(p.terms.items(), key=repr)
    s = 1 if k[0][1] > 0 else -1
    g = 0
    for _, c in k:
        g = gcd(g, abs(c))
    return s, tuple((m, s * c // g) for m, c in k)


def decide_sign(p):
    """Sign of p (nonzero polynomial): 1 or -1, possibly by a recorded choice; generic (never 0)."""
    s = sign(p)
    if s is not None:
        if s == 0:
            return 0
        return 1 if s > 0 else -1
    cs, key = _canon(p)
    i = ORACLE.choose(('sign', key))
    return cs * (1 if i == 0 else -1)


def cmp_dims(a, b, op):
    if not isdimlike(b):
        if isinstance(b, float):
            if b == float('inf'):
                return op in ('<', '<=')
            if b == float('-inf'):
                return op in ('>', '>=')
            i = ORACLE.choose(('fcmp', a.key(), op, b))
            return i == 0
        return NotImplemented
    d = a - (b if isinstance(b, Dim) else int(b))
    if isinstance(d, int):
        s = (d > 0) - (d < 0)
    else:
        sg = sign(d)
        if sg == 0.5:
            if op == '>=':
                return True
            if op == '<':
                return False
            s = 1        # generic point: not on the boundary
        elif sg == -0.5:
            if op == '<=':
                return True
            if op == '>':
                return False
            s = -1
        else:
            s = decide_sign(d)
    return {'<': s < 0, '<=': s <= 0, '>': s > 0, '>=': s >= 0}[op]


def known_le(a, b):
    """True/False if a <= b is provable/refutable without a choice, else None."""
    d = b - a
    if isinstance(d, int):
        return d >= 0
    s = sign(d)
    if s is None:
        if ORACLE.memo:
            cs, key = _canon(d)
            if ('sign', key) in ORACLE.memo:
                return cs * (1 if ORACLE.memo[('sign', key)] == 0 else -1) > 0
        return None
    if s == -0.5:
        return None
    return s >= 0


def dmin(*args):
    args = [a for a in args]
    flat = []
    for a in args:
        if isinstance(a, Dim) and len(a.terms) == 1:
            (m, c), = a.terms.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in _MINARGS:
                flat.extend(_MINARGS[m[0][0]])
                continue
        flat.append(a)
    out = []
    for a in flat:
        if any(a == b for b in out):
            continue
        dominated = False
        for b in list(out):
            k = known_le(b, a)
            if k is True:
                dominated = True
                break
            k2 = known_le(a, b)
            if k2 is True:
                out.remove(b)
        if not dominated:
            out.append(a)
    if len(out) == 1:
        return out[0]
    keys = tuple(sorted((str(a) for a in out)))
    name = 'min(%s)' % ','.join(keys)
    if name not in _MINARGS:
        _MINARGS[name] = tuple(out)
        lbs = []
        for a in out:
            if isinstance(a, int):
                lbs.append(a)
            else:
                lb = 2 if (sign(a - 2) or -1) > 0 else (1 if (sign(a - 1) or -1) > 0 else 0)
                lbs.append(lb)
        _LB[name] = min(lbs)
    return Dim({((name, 1),): 1})


def dmax(*args):
    r = args[0]
    for a in args[1:]:
        if r == a:
            continue
        r = r + a - dmin(r, a)
    return r


def prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def _value(name, env):
    if name not in env:
        if name in _MINARGS:
            env[name] = min(a if isinstance(a, int) else _evaluate(a.terms.items(), env) for a in _MINARGS[name])
        else:
            lb = lower(name)
            r = env[None]
            env[name] = lb + r.choice((r.randint(0, 3), r.randint(0, 12), r.randint(0, 60), r.randint(0, 4000)))
    return env[name]


def _evaluate(items, env):
    s = 0
    for m, c in items:
        for k, e in m:
            c = c * _value(k, env) ** e
        s += c
    return s


def witness(trail, tries=4000):
    """Dimensions for which every recorded sign choice is true, or None if none was found."""
    import random
    rnd = random.Random(1)
    cons = [(k[1], 1 if i == 0 else -1) for k, i, _ in trail if k[0] == 'sign']
    if not cons:
        return {}
    for _ in range(tries):
        env = {None: rnd}
        if all(_evaluate(k, env) * s > 0 for k, s in cons):
            return {k: v for k, v in env.items() if k is not None and k not in _MINARGS}
    return None
