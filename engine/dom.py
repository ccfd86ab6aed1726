"""Abstract value domain used by the IR abstract interpreter.

A scalar is either concrete (python int / float) or an element of the
polynomial domain: a multivariate polynomial with rational coefficients over
*atoms*.  An atom is an unknown (an input, or the result of an operation the
domain does not interpret, e.g. sin(p)), with an interval, and optionally a
*rank*: a representative placing it in a total order with the constants and the
other ranked atoms.  Ranked atoms make up the order-type domain: comparisons
between them are decided by rank alone and are therefore valid for every
concretisation that has that order type.
"""
from fractions import Fraction
import math

INF = math.inf
NAN = math.nan


class Atom:
    __slots__ = ('id', 'kind', 'args', 'lo', 'hi', 'rank', 'isint', '_h')
    table = {}
    count = 0

    def __repr__(self):
        return self.show()

    def show(self, depth=3):
        if self.kind == 'sym':
            return self.args[0]
        if depth <= 0:
            return self.kind + '(..)'
        return self.kind + '(' + ','.join(
            a.show(depth - 1) if isinstance(a, (Atom, Poly)) else str(a) for a in self.args) + ')'

    def __lt__(self, o):
        return self.id < o.id


def atom(kind, args, lo=-INF, hi=INF, rank=None, isint=False):
    key = (kind, args, rank, isint) if kind != 'sym' else (kind, args, lo, hi, rank, isint)
    a = Atom.table.get(key)
    if a is None:
        a = Atom()
        Atom.count += 1
        a.id = Atom.count
        a.kind, a.args, a.lo, a.hi, a.rank, a.isint = kind, args, lo, hi, rank, isint
        Atom.table[key] = a
    return a


def reset():
    Atom.table.clear()
    Atom.count = 0


class Poly:
    """sum of coefficient * product of atom powers; immutable."""
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def of(a):
        return Poly({((a, 1),): Fraction(1)})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Fraction(0))

    def add(self, o, s=1):
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + s * c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return Poly(t)

    def neg(self):
        return Poly({m: -c for m, c in self.t.items()})

    def scale(self, k):
        k = Fraction(k)
        if not k:
            return Poly({})
        return Poly({m: c * k for m, c in self.t.items()})

    def mul(self, o):
        t = {}
        extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, red = mmul(m1, m2)
                if red is None:
                    v = t.get(m, 0) + c1 * c2
                    if v:
                        t[m] = v
                    else:
                        t.pop(m, None)
                else:
                    q = red.scale(c1 * c2)
                    extra = q if extra is None else extra.add(q)
        r = Poly(t)
        return r if extra is None else r.add(extra)

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def all_atoms(self, acc=None):
        acc = set() if acc is None else acc
        for a in self.atoms():
            if a not in acc:
                acc.add(a)
                for x in a.args:
                    if isinstance(x, Poly):
                        x.all_atoms(acc)
        return acc

    def single_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def show(self, depth=3):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda kv: [(a.id, e) for a, e in kv[0]]):
            f = '*'.join(a.show(depth) + ('^%d' % e if e > 1 else '') for a, e in m)
            if not f:
                out.append(showc(c))
            elif c == 1:
                out.append(f)
            elif c == -1:
                out.append('-' + f)
            else:
                out.append(showc(c) + '*' + f)
        return ' + '.join(out)

    __repr__ = show


def showc(c):
    if c.denominator == 1 and abs(c.numerator) < 10**6:
        return str(c.numerator)
    return '%.6g' % float(c)


def mmul(m1, m2):
    """Multiply monomials. Returns (monomial, None) or (None, poly) when a
    reduction rule applied (sqrt(p)^2 = p, sin^2 = 1 - cos^2)."""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    need = None
    for a, e in m2:
        n = d.get(a, 0) + e
        d[a] = n
        if n >= 2 and a.kind in ('sqrt', 'sin', 'abs'):
            need = a
    # x * inv(x) = 1 for single-atom x
    for a in list(d):
        if a.kind == 'inv' and a in d:
            x = a.args[0].single_atom()
            if x is not None and x in d:
                k = min(d[a], d[x])
                for y in (a, x):
                    d[y] -= k
                    if not d[y]:
                        del d[y]
    if need is None or d.get(need, 0) < 2:
        return tuple(sorted(d.items())), None
    d[need] -= 2
    if not d[need]:
        del d[need]
    rest = Poly({tuple(sorted(d.items())): Fraction(1)})
    p = need.args[0]
    if need.kind == 'sqrt':
        sub = p
    elif need.kind == 'abs':
        sub = p.mul(p)
    else:
        c = Poly.of(atom('cos', (p,), -1, 1))
        sub = Poly.const(1).add(c.mul(c), -1)
    return None, rest.mul(sub)


def P(v):
    """lift a concrete number or Poly to Poly"""
    if isinstance(v, Poly):
        return v
    return Poly.const(Fraction(v))


def low_poly(v):
    """drop back to concrete when the polynomial is an integer constant"""
    return v


def sym(name, lo=-INF, hi=INF, rank=None, isint=False):
    return Poly.of(atom('sym', (name,), lo, hi, rank, isint))


def rational_equal(p, q):
    """equality of polynomials that may contain inv(x) atoms (x != 0)"""
    d = p.add(q, -1)
    for _ in range(6):
        if not d.t:
            return True
        invs = [a for a in d.atoms() if a.kind == 'inv']
        if not invs:
            return False
        a = max(invs, key=lambda z: z.id)
        x = a.args[0]
        deg = max((e for m in d.t for b, e in m if b is a), default=0)
        r = Poly({})
        for m, c in d.t.items():
            e = dict(m).get(a, 0)
            base = Poly({tuple(t for t in m if t[0] is not a): c})
            for _k in range(deg - e):
                base = base.mul(x)
            r = r.add(base)
        d = r
    return not d.t
