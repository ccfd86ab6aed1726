"""C11: orientation predicates return the exact sign of the determinant."""
import itertools
from common import *
from framework import parallel

EXPLANATION = (
    'orientationExact: abstract interpretation of its IR for all finite components at once (mantissas and binary exponents are unknowns, '
    'BigInteger operations are replaced by the exact integer semantics decided by C12); on every ordering of the six product exponents the '
    'integer whose sign is returned must be the determinant times one power of two, and shifts and capacities must stay in range. '
    'orientation, orientationX/Y/Z: forward rounding-error analysis of the IR; a sign returned without exact arithmetic must follow '
    'from the comparison that guards it for every rounding of every operation, and any fallback must evaluate the same determinant.')
ASSUMPTIONS = ['IEEE 754 double arithmetic, round to nearest, gradual underflow', 'finite components; for the filters unit vectors of norm at most 1 + 1e-15',
               'BigInteger as decided by C12']
U = Fraction(1, 1 << 53)
ETA = Fraction(1, 1 << 1074)

HARNESS = r'''
#include "lsst/sphgeom/orientation.h"
using namespace lsst::sphgeom;
static Vector3d V(double const *v) { return Vector3d(v[0], v[1], v[2]); }
static UnitVector3d N(double const *v) { return UnitVector3d::fromNormalized(v[0], v[1], v[2]); }
extern "C" int h_exact(double const *a, double const *b, double const *c) { return orientationExact(V(a), V(b), V(c)); }
extern "C" int h_or(double const *a, double const *b, double const *c) { return orientation(N(a), N(b), N(c)); }
extern "C" int h_orx(double const *b, double const *c) { return orientationX(N(b), N(c)); }
extern "C" int h_ory(double const *b, double const *c) { return orientationY(N(b), N(c)); }
extern "C" int h_orz(double const *b, double const *c) { return orientationZ(N(b), N(c)); }
'''


def det(a, b, c):
    r = P(0)
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        r = r.add(a[i].mul(b[j].mul(c[k]).add(b[k].mul(c[j]), -1)))
    return r


def vec3(m, v):
    p = outbuf(m, 3)
    for i, x in enumerate(v):
        m.store(Ptr(p.obj, 8 * i), x, ['d'], 8)
    return p


# ---- running error analysis -------------------------------------------------
class Fl:
    """a computed value: exact polynomial `p`; the exact result of its last operation on the computed operands differs from p by at most
    `e` (a polynomial in absolute values), the computed value from that by a relative U and `eta`; `lo` is a lower bound of the computed value"""
    __slots__ = ('p', 'e', 'eta', 'lo')

    def __init__(self, p, e, eta, lo):
        self.p, self.e, self.eta, self.lo = p, e, eta, lo


def absmono(mm):
    out = P(1)
    for a, e in mm:
        b = Poly.of(a)
        if a.lo < 0:
            b = Poly.of(atom_abs(a))
        for _ in range(e):
            out = out.mul(b)
    return out


def atom_abs(a):
    from dom import atom
    return atom('abs', (Poly.of(a),), 0, INF)


def abspoly(p):
    out = P(0)
    for mm, c in p.t.items():
        out = out.add(absmono(mm).scale(abs(c)))
    return out


def info(m, v):
    """(exact value, error bound, lower bound or None) of an operand"""
    tab = m.__dict__.setdefault('fl', {})
    if isinstance(v, float):
        return P(v), P(0), P(v) if v >= 0 else None
    a = v.single_atom()
    neg = False
    if a is None:
        a = v.neg().single_atom()
        neg = a is not None
    if a is None:
        raise build.AnalysisError('operand %s of a rounded operation' % v)
    if a in tab:
        f = tab[a]
        e = total(f)
        return (f.p.neg() if neg else f.p), e, (None if neg else f.lo)
    if a.kind == 'abs':
        y = a.args[0].single_atom()
        if y in tab:
            f = tab[y]
            e = total(f)
            if len(f.p.t) == 1:
                q = abspoly(f.p)
                return (q.neg() if neg else q), e, (None if neg else q.add(e, -1))
            # |y| of a sum: known to be between 0 and |p| + e
            return (v if not neg else v), P(0), P(0)
        return v, P(0), (None if neg else v)
    if a.kind == 'sym':
        return v, P(0), (v if a.lo >= 0 and not neg else None)
    raise build.AnalysisError('operand %s of a rounded operation' % v)


def total(f):
    # |fl - p| <= e + U (|p| + e) + eta
    return f.e.add(abspoly(f.p).add(f.e).scale(U)).add(P(f.eta))


def fhook(m, op, a, b):
    from dom import atom
    if op not in ('fadd', 'fsub', 'fmul'):
        return None
    pa, ea, la = info(m, a)
    pb, eb, lb = info(m, b)
    eta = Fraction(0)
    lo = None
    if op == 'fmul':
        p = pa.mul(pb)
        e = abspoly(pa).mul(eb).add(abspoly(pb).mul(ea)).add(ea.mul(eb))
        eta = ETA
        if la is not None and lb is not None:
            lo = la.mul(lb).scale(1 - U).add(P(-ETA))
    else:
        p = pa.add(pb, 1 if op == 'fadd' else -1)
        e = ea.add(eb)
        if op == 'fadd' and la is not None and lb is not None:
            lo = la.add(lb).scale(1 - U)
    m.__dict__.setdefault('flc', 0)
    m.flc += 1
    t = atom('fl', (op, P(a), P(b), m.flc), -INF, INF)
    m.fl[t] = Fl(p, e, eta, lo)
    return Poly.of(t)


def dominated(e, lo, unit):
    """e <= lo for all values? both are polynomials in absolute values; `unit`: components of unit vectors of three letters"""
    d = lo.add(e, -1)
    pos = d.t.get((), Fraction(0))
    neg = {}
    for mm, c in d.t.items():
        if mm and c < 0:
            neg[mm] = -c
    if not neg:
        return pos >= 0
    # bound what is left by the constant: |b_j||c_k| + |b_k||c_j| <= |b||c| and |a_i| <= 1
    t = Fraction(1) + Fraction(1, 10**15)
    groups = {}
    for mm, c in neg.items():
        names = sorted((x.args[0].single_atom().args[0] if x.kind == 'abs' else x.args[0]) for x, e in mm for _ in range(e))
        vecs = [n[0] for n in names]
        if len(set(vecs)) != len(vecs):
            # a higher order product: every component is at most t
            groups[('h',) + tuple(names)] = c * t ** len(names)
            continue
        if len(names) < 2:
            key = tuple(names)
            groups[key] = groups.get(key, 0) + c * t
            continue
        # the last two vectors: their component indices as a set
        key = tuple(names[:-2]) + (names[-2][0], names[-1][0], frozenset((names[-2][1], names[-1][1])))
        if names[-2][1] == names[-1][1]:
            key += ('same',)
        groups[key] = max(groups.get(key, 0), c * t ** len(names))
    return sum(groups.values()) <= pos


# ---- exact integers ----------------------------------------------------------
class Scaled:
    """sum of coefficient * mantissa monomial * 2^(linear form in the exponents)"""

    def __init__(self, terms):
        self.t = terms

    def mul(self, o):
        out = {}
        for (m1, e1), c1 in self.t.items():
            for (m2, e2), c2 in o.t.items():
                k = (tuple(sorted(m1 + m2)), addlin(e1, e2))
                out[k] = out.get(k, 0) + c1 * c2
        return Scaled(out)

    def add(self, o):
        out = dict(self.t)
        for k, c in o.t.items():
            out[k] = out.get(k, 0) + c
        return Scaled(out)

    def neg(self):
        return Scaled({k: -c for k, c in self.t.items()})

    def shift(self, lin):
        return Scaled({(mm, addlin(e, lin)): c for (mm, e), c in self.t.items()})


def addlin(a, b):
    d = dict(a)
    for k, c in b:
        d[k] = d.get(k, 0) + c
    return tuple(sorted((k, c) for k, c in d.items() if c))


def lin_of(p):
    out = []
    for mm, c in P(p).t.items():
        out.append((mm[0][0].args[0] if mm else '1', c))
    return tuple(sorted(out))


def run(chk):
    prog = Program(build.build_ir(HARNESS, 'C11'))
    progf = Program(build.build_ir(HARNESS, 'C11i', passes='inline'))
    cov = set()

    def L(f):
        return loc_of(prog, r'sphgeom::%s\(' % f)

    # -- exact path
    def model():
        st = {}

        def key(p):
            return (p.obj, p.off)

        def get(m, p):
            k = key(p)
            if k not in m.__dict__.setdefault('big', {}):
                raise build.AnalysisError('BigInteger used before construction')
            if len(m.big[k]) > 5:
                raise Alarm('aliasing', 'the storage of a BigInteger was overwritten through another one')
            return m.big[k]

        def wrote(m, p):
            b = m.big[key(p)]
            lo, hi = b[3].off, b[3].off + 4 * b[1]
            for k, x in m.big.items():
                if k != key(p) and x[3].obj is b[3].obj and x[3].off < hi and lo < x[3].off + 4 * x[1] and len(x) == 5:
                    x.append('overwritten')

        def writer(f):
            def g(m, a):
                r = f(m, a)
                wrote(m, a[0])
                return r
            return g

        def ctor(m, a):
            m.__dict__.setdefault('big', {})[key(a[0])] = [Scaled({}), a[2], 0, a[1]]
            room = (a[1].obj.size - a[1].off) // 4
            m.big[key(a[0])].append(a[2] <= room)
            return None

        def set_to(m, a):
            b = get(m, a[0])
            v = P(a[1])
            t = {}
            for mm, c in v.t.items():
                if c.denominator != 1:
                    raise build.AnalysisError('a mantissa that is not an integer: %s' % v)
                t[(tuple(x.args[0] for x, e in mm for _ in range(e)), ())] = int(c)
            lo, hi = m.rng(v)
            b[0], b[2] = Scaled(t), 2
            m.room.append((b[1] >= 2, 'setTo'))
            m.mant.append(lo >= -(1 << 53) and hi <= (1 << 53))
            return None

        def mul(m, a):
            x, y = get(m, a[0]), get(m, a[1])
            x[0] = x[0].mul(y[0])
            x[2] = x[2] + y[2]
            m.room.append((x[1] >= x[2], 'multiply'))
            return a[0]

        def add(m, a):
            x, y = get(m, a[0]), get(m, a[1])
            x[0] = x[0].add(y[0])
            x[2] = max(P(x[2]), P(y[2]), key=lambda q: m.rng(q)[1]).add(P(1)) if isinstance(x[2], Poly) or isinstance(y[2], Poly) else max(x[2], y[2]) + 1
            m.room.append((m.rng(P(x[2]))[1] <= x[1], 'add'))
            return a[0]

        def sub(m, a):
            x, y = get(m, a[0]), get(m, a[1])
            x[0] = x[0].add(y[0].neg())
            x[2] = max(P(x[2]), P(y[2]), key=lambda q: m.rng(q)[1]).add(P(1))
            m.room.append((m.rng(P(x[2]))[1] <= x[1], 'subtract'))
            return a[0]

        def neg(m, a):
            x = get(m, a[0])
            x[0] = x[0].neg()
            return None

        def pow2(m, a):
            x = get(m, a[0])
            n = P(m.canon_s(a[1], 32)) if isinstance(a[1], Poly) else P(a[1])
            m.shifts.append(m.signs(n) <= {0, 1})
            m.total = m.total.add(n)
            # value digits, rounded up, and the extra digit the operation asks for
            x[2] = P(x[2]).add(n.scale(Fraction(1, 32))).add(P(2))
            x[0] = x[0].shift(lin_of(n))
            m.sizes.append((P(x[2]), x[1]))
            return a[0]

        def assign(m, a):
            x, y = get(m, a[0]), get(m, a[1])
            x[0], x[2] = y[0], y[2]
            m.room.append((m.rng(P(x[2]))[1] <= x[1], 'operator='))
            return a[0]

        def sign(m, a):
            x = get(m, a[0])
            m.result = x[0]
            return sym('sign', -1, 1, isint=True)

        def zero(m, a):
            x = get(m, a[0])
            x[0], x[2] = Scaled({}), 0
            return None
        return {r'BigInteger::BigInteger\(unsigned int\*, unsigned int\)': ctor, r'BigInteger::setTo\(long\)': writer(set_to), r'BigInteger::multiply\(': writer(mul),
                r'BigInteger::add\(': writer(add), r'BigInteger::subtract\(': writer(sub), r'BigInteger::negate\(': neg, r'BigInteger::multiplyPow2\(': writer(pow2),
                r'BigInteger::operator=\(': writer(assign), r'BigInteger::getSign\(': sign, r'BigInteger::setToZero\(': zero}

    def frexp(m, a):
        x = a[0].single_atom()
        if x is None or x.kind != 'sym':
            raise build.AnalysisError('frexp of %s' % a[0])
        n = x.args[0]
        e = sym('e' + n, -1073, 1024, isint=True)
        m.store(a[1], e, ['i', 32], 4)
        return sym('m' + n, -(1 << 53), 1 << 53, isint=True).scale(Fraction(1, 1 << 53))

    names = ['%s%d' % (v, i) for v in 'abc' for i in range(3)]
    A, Bv, C = [[sym('%s%d' % (v, i), -INF, INF) for i in range(3)] for v in 'abc']

    def go(m):
        m.room, m.shifts, m.total, m.sizes, m.mant, m.result = [], [], P(0), [], [], None
        return m.call('h_exact', [vec3(m, A), vec3(m, Bv), vec3(m, C)])
    stubs = stub_map(prog, model(), required=False)
    stubs['frexp'] = frexp
    need = [r'BigInteger::multiply\(', r'BigInteger::add\(', r'BigInteger::multiplyPow2\(']
    for p in need:
        if not symbols(prog, p):
            raise build.AnalysisError('no call of %s to model' % p)
    expect = {}
    for perm, s in (((0, 1, 2), 1), ((1, 2, 0), 1), ((2, 0, 1), 1), ((0, 2, 1), -1), ((1, 0, 2), -1), ((2, 1, 0), -1)):
        mm = tuple(sorted('m%s%d' % (v, i) for v, i in zip('abc', perm)))
        ee = tuple(sorted(('e%s%d' % (v, i), Fraction(1)) for v, i in zip('abc', perm)))
        expect[mm] = (s, ee)
    n = 0
    for r in explore(prog, go, stubs=stubs, opts={'poly': True, 'cov': cov}):
        n += 1
        where = L('orientationExact')
        if r.alarm is not None or r.exc is not None:
            chk.fail('exact-determinant', 'orientationExact:fault', where, '%s' % (r.alarm or r.exc))
            continue
        m = r.m
        if m.result is None:
            chk.fail('exact-determinant', 'orientationExact:result', where, 'returned %s without the sign of an exact integer' % (r.value,))
            continue
        v = P(r.value)
        s = 1 if v == sym('sign', -1, 1, isint=True) else -1 if v.neg() == sym('sign', -1, 1, isint=True) else 0
        got = {k: c * s for k, c in m.result.t.items() if c}
        offs = set()
        ok = bool(got) and s != 0 and {k[0] for k in got} == set(expect) and len(got) == 6
        if ok:
            for (mm, e), c in got.items():
                w, ee = expect[mm]
                ok = ok and c == w
                offs.add(addlin(e, tuple((k, -x) for k, x in ee)))
        chk.expect(ok and len(offs) == 1, 'exact-determinant', 'orientationExact', where,
                   lambda: 'the integer is not the determinant scaled by a power of two: terms %s, scales %s; ordering %s' % (len(got), sorted(offs)[:3], r.path(4)))
        chk.expect(all(m.shifts), 'shift-not-negative', 'orientationExact:shift', where, lambda: 'a shift may be negative: %s' % r.path(4))
        chk.expect(all(m.mant), 'mantissa-fits', 'orientationExact:mantissa', where, 'a mantissa exceeds 2^53')
        chk.expect(all(x for x, _ in m.room) and all(x[4] for x in m.big.values()), 'capacity-suffices', 'orientationExact:capacity', where, lambda: 'capacity: %s' % (m.room,))
        big = [q for q, cap in m.sizes if m.rng(q)[1] > cap]
        # total shift telescopes to the spread of the product exponents
        lim = max(m.rng(m.total)[1], 0) / 32 + 6 + 12
        cap = min([c for _, c in m.sizes] or [0])
        chk.expect(lim <= cap, 'capacity-suffices', 'orientationExact:accumulator', where, lambda: 'shifts add up to as much as %s bits; capacity %s digits' % (m.rng(m.total)[1], cap))
    chk.partitions += n
    chk.info['exponent_orderings'] = n

    # -- filters
    def cmp_unit(name, entry, a, vecs):
        """a: None for the general case, else the axis"""
        Bx, Cx = vecs[-2], vecs[-1]
        if a is None:
            Ax = vecs[0]
        else:
            Ax = [P(1 if i == a else 0) for i in range(3)]
        D = det(Ax, Bx, Cx)
        where = loc_of(progf, r'sphgeom::%s\(' % name)

        def exact(m, args):
            v = [[m.load(Ptr(q.obj, q.off + 8 * i), ['d'], 8) for i in range(3)] for q in args[:3]]
            m.exact = det(*[[P(x) for x in y] for y in v])
            return sym('sign', -1, 1, isint=True)
        st = {nm: exact for nm in symbols(prog, r'sphgeom::orientationExact\(')}
        if not st:
            raise build.AnalysisError('orientationExact is gone')

        def go(m):
            m.exact = None
            m.fl = {}
            m.flc = 0
            return m.call(entry, [vec3(m, v) for v in vecs])
        for r in explore(prog, go, stubs=st, opts={'absatom': True, 'fhook': fhook, 'cov': cov}):
            chk.partitions += 1
            if r.alarm is not None or r.exc is not None:
                chk.fail('sign-follows-from-guard', name + ':fault', where, '%s' % (r.alarm or r.exc))
                continue
            m = r.m
            v = r.value
            sg = sym('sign', -1, 1, isint=True)
            if isinstance(v, Poly):
                s = 1 if v == sg else -1 if v.neg() == sg else 0
                ok = s != 0 and m.exact is not None and m.exact.scale(s) == D
                chk.expect(ok, 'fallback-is-the-same-determinant', name + ':fallback', where, lambda: 'exact fallback evaluates %s' % m.exact)
                continue
            v = v - (1 << 32) if v >> 31 else v
            if v == 0:
                d = D
                eqs = [k for k, s in m.facts.items() if s == {0}]
                while eqs:
                    k = eqs.pop()
                    lin = [(mm[0][0], c) for mm, c in k.t.items() if len(mm) == 1]
                    if len(lin) == len(k.t) and lin:
                        x, c = lin[0]
                        q = k.add(Poly.of(x).scale(c), -1).scale(-1 / c)
                        d = subst(d, x, q)
                        eqs = [subst(z, x, q) for z in eqs]
                chk.expect(not d.t, 'zero-only-when-degenerate', name + ':zero', where, lambda: 'returns 0 although the determinant is %s: %s' % (d, r.path(8)))
                continue
            if v not in (1, -1):
                chk.fail('sign-follows-from-guard', name, where, 'returns %s' % v)
                continue
            # some guard on this path must imply v * D > 0
            ok = False
            tried = []
            for k, ss in m.facts.items():
                for g in (1, -1):
                    s = ss if g == 1 else {-x for x in ss}
                    if not s <= {0, 1}:
                        continue
                    f = k.scale(g)      # f >= 0 (> 0)
                    for t, q in m.fl.items():
                        c = f.t.get(((t, 1),))
                        if c is None or (c > 0) != (v > 0):
                            continue
                        if q.p != D:
                            continue
                        # |c| v t >= rest  ->  v t >= E
                        rest = f.add(Poly.of(t).scale(c), -1).scale(-1 / abs(c))
                        lo = P(0)
                        good = True
                        for mm, z in rest.t.items():
                            if not mm:
                                lo = lo.add(P(z))
                                continue
                            y = mm[0][0]
                            w = m.fl.get(y)
                            if len(mm) != 1 or mm[0][1] != 1 or w is None or w.lo is None or z < 0:
                                good = False
                                break
                            lo = lo.add(w.lo.scale(z))
                        if not good:
                            continue
                        # t = X (1 + d): v X >= v t (1 - U) - eta; |X - D| <= e
                        need = q.e.add(P(q.eta))
                        tried.append((need, lo))
                        if dominated(need, lo.scale(1 - U), None) and s == {1} or dominated(need.add(P(ETA)), lo.scale(1 - U), None):
                            ok = True
            chk.expect(ok, 'sign-follows-from-guard', '%s:%+d' % (name, v), where,
                       lambda: 'returns %d although rounding may have changed the sign: %s%s' % (v, r.path(4), ''.join(
                           '; error up to %s, guard allows %s' % (brief(a), brief(b)) for a, b in tried[:2])))

    def brief(p):
        cs = sorted({float(c) for mm, c in p.t.items()}, key=abs)
        return 'coefficients ' + ', '.join('%.4g' % c for c in cs[-4:])
    un = [[sym('%s%d' % (v, i), -2, 2) for i in range(3)] for v in 'abc']
    cmp_unit('orientation', 'h_or', None, un)
    for i, ax in enumerate('XYZ'):
        cmp_unit('orientation' + ax, 'h_or' + ax.lower(), i, un[1:])
    src_of(prog, chk, cov)


def subst(p, a, q):
    out = P(0)
    for mm, c in p.t.items():
        t = Poly({tuple(x for x in mm if x[0] is not a): c})
        for x, e in mm:
            if x is a:
                for _ in range(e):
                    t = t.mul(q)
        out = out.add(t)
    return out
