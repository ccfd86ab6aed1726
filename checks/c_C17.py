"""C17: coordinate conversions, vector and matrix algebra."""
import math
from common import *
from framework import parallel
from absint import Infeasible, mathfn
from c_C16 import Ctx, std_minmax, buf, lds, sgn, sub, ge, ex, TINY, FPI, PI, F, isnum
from c_C18 import pyth

EXPLANATION = (
    'Every conversion and algebra member is interpreted with unknown components in the exact polynomial domain (square roots, '
    'reciprocals and trigonometric functions are atoms with their defining relations) and its result compared, after clearing '
    'denominators and square roots, with the defining formula; on every path, for every component order and sign, with and without '
    'SIMD. NaN is propagated through every position. Normalisation is also interpreted with magnitudes near both ends of the '
    'exponent range: no intermediate result may leave it.')
ASSUMPTIONS = ['exact reals; the accuracy of the formulas in floating point is not decided',
               'libm functions are the mathematical functions']

HARNESS = r'''
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/Matrix3d.h"
#include "lsst/sphgeom/UnitVector3d.h"
#include "lsst/sphgeom/utils.h"
using namespace lsst::sphgeom;
static UnitVector3d U(double const *v) { return UnitVector3d::fromNormalized(v[0], v[1], v[2]); }
static Vector3d V(double const *v) { return Vector3d(v[0], v[1], v[2]); }
static Matrix3d M(double const *v) { return Matrix3d(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]); }
static void put(Vector3d const &v, double *o) { o[0] = v.x(); o[1] = v.y(); o[2] = v.z(); }
static void putm(Matrix3d const &m, double *o) { for (int i = 0; i < 9; ++i) o[i] = m(i / 3, i % 3); }
extern "C" double h_norm(double const *v, double *o) { Vector3d x = V(v); double r = x.normalize(); put(x, o); return r; }
extern "C" void h_vec(long op, double const *a, double const *b, double s, double *o) {
  Vector3d x = V(a), y = V(b);
  switch (op) {
    case 0: o[0] = x.dot(y); break;
    case 1: put(x.cross(y), o); break;
    case 2: put(-x, o); break;
    case 3: put(x * s, o); break;
    case 4: put(x / s, o); break;
    case 5: put(x + y, o); break;
    case 6: put(x - y, o); break;
    case 7: put(x.cwiseProduct(y), o); break;
    case 8: put(s * x, o); break;
    case 9: x *= s; put(x, o); break;
    case 10: x /= s; put(x, o); break;
    case 11: x += y; put(x, o); break;
    case 12: x -= y; put(x, o); break;
    case 13: o[0] = x.getSquaredNorm(); break;
    case 14: o[0] = x.getNorm(); break;
    case 15: put(x.rotatedAround(U(b), Angle(s)), o); break;
    case 16: for (int i = 0; i < 3; ++i) o[i] = x(i); break;
    case 17: for (int i = 0; i < 3; ++i) o[i] = x.getData()[i]; break;
    case 18: o[0] = x == y; o[1] = x != y; o[2] = x.isZero(); break;
    case 19: { Vector3d &r = x += x; put(r, o); o[3] = &r == &x; break; }
    case 20: put(Vector3d(), o); break;
    case 30: o[0] = U(a).dot(y); break;
    case 31: put(U(a).cross(y), o); break;
    case 32: put(-U(a), o); break;
    case 33: put(U(a) * s, o); break;
    case 34: put(U(a) / s, o); break;
    case 35: put(U(a) + y, o); break;
    case 36: put(U(a) - y, o); break;
    case 37: put(U(a).cwiseProduct(y), o); break;
    case 38: put(U(a).robustCross(U(b)), o); break;
    case 39: for (int i = 0; i < 3; ++i) o[i] = U(a)(i); break;
    case 40: put(UnitVector3d::fromNormalized(x), o); break;
    case 41: for (int i = 0; i < 3; ++i) o[i] = U(a).getData()[i]; break;
    case 42: o[0] = U(a) == y; o[1] = U(a) != y; break;
    case 43: put(UnitVector3d::X(), o); break;
    case 44: put(UnitVector3d::Y(), o); break;
    case 45: put(UnitVector3d::Z(), o); break;
    case 46: put(UnitVector3d(), o); break;
    case 50: put(UnitVector3d(x), o); break;
    case 51: put(UnitVector3d(a[0], a[1], a[2]), o); break;
    case 52: put(UnitVector3d::orthogonalTo(x), o); break;
    case 53: put(UnitVector3d::orthogonalTo(x, y), o); break;
    case 54: put(UnitVector3d::northFrom(x), o); break;
    case 55: put(U(a).rotatedAround(U(b), Angle(s)), o); break;
    case 56: put(UnitVector3d::orthogonalTo(NormalizedAngle(s)), o); break;
    case 57: put(UnitVector3d(Angle(a[0]), Angle(a[1])), o); break;
    case 58: put(UnitVector3d(LonLat::fromRadians(a[0], a[1])), o); break;
  } }
extern "C" void h_mat(long op, double const *a, double const *b, double s, double *o) {
  Matrix3d x = M(a);
  switch (op) {
    case 0: putm(x, o); break;
    case 1: putm(Matrix3d(V(b)), o); break;
    case 2: putm(Matrix3d(s), o); break;
    case 3: for (int i = 0; i < 3; ++i) put(x.getRow(i), o + 3 * i); break;
    case 4: for (int i = 0; i < 3; ++i) put(x.getColumn(i), o + 3 * i); break;
    case 5: o[0] = x.inner(M(b)); break;
    case 6: o[0] = x.getSquaredNorm(); break;
    case 7: o[0] = x.getNorm(); break;
    case 8: put(x * V(b), o); break;
    case 9: putm(x * M(b), o); break;
    case 10: putm(x + M(b), o); break;
    case 11: putm(x - M(b), o); break;
    case 12: putm(x.cwiseProduct(M(b)), o); break;
    case 13: putm(x.transpose(), o); break;
    case 14: putm(x.inverse(), o); break;
    case 15: putm(Matrix3d(), o); break;
    case 16: o[0] = x == M(b); o[1] = x != M(b); break;
  } }
extern "C" double h_ang(long op, double a, double b) {
  Angle x(a), y(b);
  switch (op) {
    case 0: return (-x).asRadians();
    case 1: return (x + y).asRadians();
    case 2: return (x - y).asRadians();
    case 3: return (x * b).asRadians();
    case 4: return (b * x).asRadians();
    case 5: return (x / b).asRadians();
    case 6: return x / y;
    case 7: x += y; return x.asRadians();
    case 8: x -= y; return x.asRadians();
    case 9: x *= b; return x.asRadians();
    case 10: x /= b; return x.asRadians();
    case 11: return x.asDegrees();
    case 12: return Angle::fromDegrees(a).asRadians();
    case 13: return Angle::fromRadians(a).asRadians();
    case 14: return sin(x);
    case 15: return cos(x);
    case 16: return tan(x);
    case 17: return abs(x).asRadians();
    case 18: return x == y;
    case 19: return x != y;
    case 20: return x < y;
    case 21: return x > y;
    case 22: return x <= y;
    case 23: return x >= y;
    case 24: return x.isNormalized();
    case 25: return x.isNan();
    case 26: return Angle().asRadians();
    case 27: return Angle::nan().asRadians();
    default: return getMinAngleToCircle(x, y).asRadians();
    case 29: return getMaxAngleToCircle(x, y).asRadians();
  } }
extern "C" double h_nang(long op, double a, double b) {
  NormalizedAngle x(a);
  switch (op) {
    case 0: return x.asRadians();
    case 1: return NormalizedAngle(Angle(a)).asRadians();
    case 2: return NormalizedAngle::fromRadians(a).asRadians();
    case 3: return NormalizedAngle::fromDegrees(a).asRadians();
    case 4: return NormalizedAngle::between(x, NormalizedAngle(b)).asRadians();
    case 5: return NormalizedAngle::center(x, NormalizedAngle(b)).asRadians();
    case 6: return x.getAngleTo(NormalizedAngle(b)).asRadians();
    case 7: return (-x).asRadians();
    case 8: return (x + Angle(b)).asRadians();
    case 9: return (x - Angle(b)).asRadians();
    case 10: return (x * b).asRadians();
    case 11: return (x / b).asRadians();
    case 12: return x / Angle(b);
    case 13: return x.asDegrees();
    case 14: return abs(x).asRadians();
    case 15: return x.isNan();
    case 16: return x == Angle(b);
    case 17: return x != Angle(b);
    case 18: return x < Angle(b);
    case 19: return x > Angle(b);
    case 20: return x <= Angle(b);
    case 21: return x >= Angle(b);
    case 22: return NormalizedAngle().asRadians();
    default: return NormalizedAngle::nan().asRadians();
  } }
extern "C" void h_lonlat(long op, double const *a, double const *b, double *o) {
  switch (op) {
    case 0: { LonLat p = LonLat(NormalizedAngle(a[0]), Angle(a[1])); o[0] = p.getLon().asRadians(); o[1] = p.getLat().asRadians(); break; }
    case 1: { LonLat p = LonLat::fromRadians(a[0], a[1]); o[0] = p.getLon().asRadians(); o[1] = p.getLat().asRadians(); break; }
    case 2: { LonLat p = LonLat::fromDegrees(a[0], a[1]); o[0] = p.getLon().asRadians(); o[1] = p.getLat().asRadians(); break; }
    case 3: { LonLat p(V(a)); o[0] = p.getLon().asRadians(); o[1] = p.getLat().asRadians(); break; }
    case 4: { o[0] = LonLat::longitudeOf(V(a)).asRadians(); o[1] = LonLat::latitudeOf(V(a)).asRadians(); break; }
    case 5: { LonLat p; o[0] = p.getLon().asRadians(); o[1] = p.getLat().asRadians(); break; }
    case 6: { LonLat p = LonLat::fromRadians(a[0], a[1]), q = LonLat::fromRadians(b[0], b[1]); o[0] = p == q; o[1] = p != q; break; }
    case 7: o[0] = NormalizedAngle(LonLat::fromRadians(a[0], a[1]), LonLat::fromRadians(b[0], b[1])).asRadians(); break;
    case 8: o[0] = NormalizedAngle(V(a), V(b)).asRadians(); break;
  } }
extern "C" void h_util(long op, double const *v, double const *a, double const *b, double const *n, double *o) {
  switch (op) {
    case 0: o[0] = getMinSquaredChordLength(V(v), V(a), V(b), V(n)); break;
    case 1: o[0] = getMaxSquaredChordLength(V(v), V(a), V(b), V(n)); break;
    case 2: put(getWeightedCentroid(U(v), U(a), U(b)), o); break;
    case 3: { ConvexPolygon const p{U(v), U(a), U(b)}; put(p.getCentroid(), o); break; }
    case 4: { ConvexPolygon const p{U(v), U(a), U(b), U(n)}; put(p.getCentroid(), o); break; }
    case 5: { Box const x(NormalizedAngleInterval::fromRadians(v[0], v[1]), AngleInterval::fromRadians(a[0], a[1])); o[0] = x.getArea(); break; }
  } }
'''
XYZ = 'xyz'
BIG = F(10**6)


def run(chk):
    irs = {}
    for nm, defs in (('simd', ()), ('scalar', ('NO_SIMD',))):
        irs[nm] = Program(build.build_ir(HARNESS, 'C17' + nm, defs=defs))
    X = Ctx()
    X.prog = irs['simd']
    X.both = irs
    X.mm = std_minmax(X.prog)
    jobs = [('normalize', b, i) for b in irs for i in range(7)]
    jobs += [('normrange', b, e) for b in irs for e in (1000, -1000)] + [('normnan', b) for b in irs]
    jobs += [('vector', i) for i in range(5)] + [('rotate',), ('normalized',), ('orth1',), ('orth2',), ('north',), ('directions',)]
    jobs += [('matrix',), ('inverse',), ('angle',), ('compare',), ('circleangle',), ('normangle',), ('nangle2',), ('nanprop',)]
    jobs += [('lonlat',), ('vectolonlat',), ('haversine',), ('vecangle',), ('chord', 0), ('chord', 1), ('centroid', 2), ('centroid', 3), ('centroid', 4), ('boxarea',)]

    def one(c, it):
        globals()['do_' + it[0]](c, X, *it[1:])
    parallel(chk, jobs, one)
    for r, n in (('normalize', 60), ('vector-algebra', 40), ('matrix-algebra', 15), ('angle-arithmetic', 40), ('lon-lat', 20), ('directions', 20)):
        chk.need(r, n)


# ---- algebra of results ---------------------------------------------------------
def clear(m, p, unit=()):
    """p up to non-zero factors: denominators and even powers of square roots removed, sin^2 = 1 - cos^2, and for each vector of
    unit the last square replaced by 1 minus the others"""
    p = P(p)
    for _ in range(60):
        q, es = m.inv_factor(p)
        if q is not None and es:
            p = q
            continue
        hit = None
        for k in p.t:
            for a, e in k:
                if a.kind == 'sqrt' and e >= 2:
                    hit = (k, a, e, a.args[0])
                elif e >= 2:
                    for u in unit:
                        x = P(u[2]).single_atom()
                        if x is a:
                            hit = (k, a, e, P(1).add(P(u[0]).mul(P(u[0])), -1).add(P(u[1]).mul(P(u[1])), -1))
            if hit:
                break
        if hit is None:
            q = pyth(m, p)
            if not q.add(p, -1).t:
                return p
            p = q
            continue
        k, a, e, by = hit
        rest = {b: f for b, f in k if b is not a}
        if e > 2:
            rest[a] = e - 2
        mono = Poly({tuple(sorted(rest.items(), key=lambda z: z[0].id)): p.t[k]})
        p = Poly({x: y for x, y in p.t.items() if x != k}).add(mono.mul(by))
    raise build.AnalysisError('result does not simplify')


def vec(n, lo=-BIG, hi=BIG):
    return [sym('%s.%s' % (n, c), lo, hi) for c in XYZ]


def dot(a, b):
    s = P(0)
    for x, y in zip(a, b):
        s = s.add(P(x).mul(P(y)))
    return s


def cross(a, b):
    return [P(a[(i + 1) % 3]).mul(P(b[(i + 2) % 3])).add(P(a[(i + 2) % 3]).mul(P(b[(i + 1) % 3])), -1) for i in range(3)]


def same(m, got, want, unit=()):
    return all(isnum(g) and not (isinstance(g, float) and abs(g) == INF) and not clear(m, sub(g, w), unit).t for g, w in zip(got, want))


def shrt(x):
    return str(x)[:240]


def with_prog(X, name):
    Y = Ctx()
    Y.prog = X.both[name]
    Y.mm = std_minmax(Y.prog)
    return Y


def explore1(c, X, go, stubs, key, l, opts=None, throws=False):
    """(path, value) where value is None for a path that throws, if it may"""
    if not throws:
        for R in ex(c, X, go, stubs, key, l, opts=opts):
            yield R, R.value
        return
    cov = set()
    n = 0
    for R in explore(X.prog, go, stubs=dict(X.mm, **stubs), opts=dict({'poly': True, 'minmax': True, 'cov': cov}, **(opts or {})), maxpaths=5000):
        n += 1
        if R.alarm is not None:
            c.fail('no-fault', key + ':fault', (R.alarm.where or [l])[0], '%s: %s; path: %s' % (key, R.alarm, R.path(8)))
            continue
        c.ok('no-fault')
        yield R, (None if R.exc is not None else R.value)
    c.partitions += n
    src_of(X.prog, c, cov)
    if not n:
        raise build.AnalysisError('no path of ' + key)


# ---- normalisation --------------------------------------------------------------
NORM = r'Vector3d::normalize\(\)'


def run_norm(m, v):
    o = outbuf(m, 3)
    r = m.call('h_norm', [buf(m, v), o])
    return [r] + lds(m, o, 3)


def do_normalize(c, X, b, i):
    """i: which components are zero (bits); the others are unknown and not zero"""
    Y = with_prog(X, b)
    l = loc_of(Y.prog, NORM)
    zero = [k for k in range(3) if i >> k & 1]

    def go(m):
        v = [0.0 if k in zero else sym('v.' + XYZ[k], -BIG, BIG) for k in range(3)]
        for k in range(3):
            if k not in zero:
                m.learn(P(v[k]), {m.choose(2, 'sign') * 2 - 1})
        return v, run_norm(m, v)
    for R, val in explore1(c, Y, go, {}, 'normalize:%s:%d' % (b, i), l):
        v, (r, *o) = val
        m = R.m
        good = isnum(r) and all(isnum(x) for x in o) and sgn(m, r) <= {0, 1} and not clear(m, sub(P(r).mul(P(r)), dot(v, v))).t
        good = good and all(not clear(m, sub(P(x).mul(P(r)), y)).t for x, y in zip(o, v))
        good = good and not clear(m, sub(dot(o, o), 1)).t
        c.expect(good, 'normalize', 'normalize:%s:%d' % (b, i), l, lambda: '%s: (%s) normalizes to (%s), length %s; %s' % (b, v, ', '.join(map(shrt, o)), shrt(r), R.path(5)))
    if i == 0:
        for z in (0.0, -0.0):
            for R, val in explore1(c, Y, lambda m: run_norm(m, [z, 0.0, -z]), {}, 'normalize:zero', l, throws=True):
                c.expect(val is None and 'runtime_error' in str(R.exc), 'normalize', 'normalize:%s:zero' % b, l, '%s: the zero vector is normalized to %s' % (b, val))


def do_normrange(c, X, b, e):
    """components around 2^e: nothing computed on the way may overflow or underflow"""
    Y = with_prog(X, b)
    l = loc_of(Y.prog, NORM)
    lo, hi = F(2) ** (e - 6), F(2) ** (e + 6)
    lim = F(2) ** 1023

    def hook(m, op, x, y):
        return None

    for mask in range(1, 8):
        seen = []

        def go(m):
            v = [sym('w.%s' % XYZ[k], lo, hi) if mask >> k & 1 else 0.0 for k in range(3)]
            for k in range(3):
                if mask >> k & 1 and m.choose(2, 'neg'):
                    v[k] = P(v[k]).neg()
            return run_norm(m, v)

        def fhook(m, op, x, y):
            if isinstance(x, float) and (x != x or abs(x) == INF) or isinstance(y, float) and (y != y or abs(y) == INF):
                return None
            p, q = P(x), P(y)
            r = p.add(q) if op == 'fadd' else p.add(q, -1) if op == 'fsub' else p.mul(q) if op == 'fmul' else None
            if r is None:
                return None
            a, z = m.rng(r)
            if z > lim or a < -lim:
                seen.append('%s of %s and %s may overflow' % (op, p, q))
            if op == 'fmul' and 0 < a and z < F(2) ** -1022 or op == 'fmul' and a < 0 and 0 > z > -F(2) ** -1022:
                seen.append('%s of %s and %s underflows' % (op, p, q))
            return None
        for R, val in explore1(c, Y, go, {}, 'normalize-range', l, opts={'fhook': fhook}):
            c.expect(not seen, 'normalize-range', 'range:%s:%d:%d' % (b, e, mask), l, lambda: '%s: components near 2^%d: %s' % (b, e, shrt(seen[0])))
            del seen[:]


def do_normnan(c, X, b):
    Y = with_prog(X, b)
    l = loc_of(Y.prog, NORM)
    for mask in range(1, 8):
        def go(m):
            v = [NAN if mask >> k & 1 else sym('v.' + XYZ[k], -BIG, BIG) for k in range(3)]
            return run_norm(m, v)
        for R, val in explore1(c, Y, go, {}, 'normalize-nan', l, throws=True):
            c.expect(val is None or any(not isnum(x) for x in val[1:]), 'normalize', 'nan:%s:%d' % (b, mask), l,
                     lambda: '%s: a vector with NaN components %s normalizes to %s; %s' % (b, bin(mask), shrt(val), R.path(4)))


# ---- vectors --------------------------------------------------------------------
def vecop(m, op, a, b, s):
    o = outbuf(m, 4)
    for i in range(4):
        m.store(Ptr(o.obj, 8 * i), 77.0, ['d'], 8)
    m.call('h_vec', [op, buf(m, a), buf(m, b), s, o])
    return lds(m, o, 4)


VLOC = {0: 'Vector3d::dot', 1: 'Vector3d::cross', 2: r'Vector3d::operator-\(\)', 38: 'UnitVector3d::robustCross'}


def do_vector(c, X, part):
    a, b, s = vec('a'), vec('b'), sym('s', TINY, BIG)
    add = lambda u, v, k=1: [P(x).add(P(y), k) for x, y in zip(u, v)]
    mul = lambda u, k: [P(x).mul(P(k)) for x in u]

    def table(m):
        inv = m.inv(s)
        cw = [P(x).mul(P(y)) for x, y in zip(a, b)]
        T = {0: [dot(a, b)], 1: cross(a, b), 2: mul(a, -1), 3: mul(a, s), 4: mul(a, inv), 5: add(a, b), 6: add(a, b, -1), 7: cw, 8: mul(a, s), 9: mul(a, s), 10: mul(a, inv),
             11: add(a, b), 12: add(a, b, -1), 13: [dot(a, a)], 14: [mathfn(m, 'sqrt', dot(a, a))], 16: a, 17: a, 19: mul(a, 2) + [P(1)], 20: [P(0)] * 3,
             43: [P(1), P(0), P(0)], 44: [P(0), P(1), P(0)], 45: [P(0), P(0), P(1)], 46: [P(1), P(0), P(0)]}
        for k in range(8):
            T[30 + k] = T[k]
        T[38] = mul(cross(a, b), 2)
        T[39] = T[40] = T[41] = a
        return T
    keys = sorted(table_keys())
    for op in keys[part::5]:
        l = loc_of(X.prog, VLOC.get(op, 'sphgeom::Vector3d::' if op < 30 else 'sphgeom::UnitVector3d::'))
        for R, o in explore1(c, X, lambda m: vecop(m, op, a, b, s), {}, 'vector:%d' % op, l):
            w = table(R.m)[op]
            c.expect(same(R.m, o, w), 'vector-algebra', 'vector:%d' % op, l, lambda: 'case %d of h_vec: %s instead of %s' % (op, shrt(o), shrt(w)))
    if part == 0:
        for op in (18, 42):
            l = loc_of(X.prog, 'Vector3d::operator==')
            for R, o in explore1(c, X, lambda m: vecop(m, op, a, b, s), {}, 'vector-equality', l):
                eq = all(sgn(R.m, sub(x, y)) == {0} for x, y in zip(a, b))
                ne = any(0 not in sgn(R.m, sub(x, y)) for x, y in zip(a, b))
                z = op == 42 or (o[2] == 1 and all(sgn(R.m, x) == {0} for x in a)) or (o[2] == 0 and any(0 not in sgn(R.m, x) for x in a))
                c.expect((eq if o[0] == 1 else ne) and o[1] == 1 - o[0] and z, 'vector-algebra', 'equal:%d' % op, l, lambda: 'equality answers %s on %s' % (o[:3], R.path(6)))
            for k in range(3):
                u = list(a)
                u[k] = NAN
                for R, o in explore1(c, X, lambda m: vecop(m, op, u, b, s), {}, 'vector-equality', l):
                    c.expect(o[0] == 0 and o[1] == 1, 'vector-algebra', 'equalnan:%d' % op, l, 'a NaN component compares equal')


def table_keys():
    return list(range(18)[:15]) + [16, 17, 19, 20] + list(range(30, 42)) + [43, 44, 45, 46]


def rodrigues(m, v, k, t):
    C, S = mathfn(m, 'cos', t), mathfn(m, 'sin', t)
    x = cross(k, v)
    d = dot(k, v).mul(P(1).add(P(C), -1))
    return [P(v[i]).mul(P(C)).add(x[i].mul(P(S))).add(P(k[i]).mul(d)) for i in range(3)]


def do_rotate(c, X):
    l = loc_of(X.prog, r'Vector3d::rotatedAround')
    v, k, t = vec('v'), vec('k', F(-1), F(1)), sym('t', F(-10), F(10))
    for R, o in explore1(c, X, lambda m: vecop(m, 15, v, k, t), {}, 'rotate', l):
        w = rodrigues(R.m, v, k, t)
        c.expect(same(R.m, o, w, unit=[k]), 'vector-algebra', 'rotate', l, lambda: 'rotation is %s instead of %s' % (shrt(o), shrt(w)))
    for R, o in explore1(c, X, lambda m: vecop(m, 55, v, k, t), stub_map(X.prog, {NORM: norm_k}), 'rotate', l):
        w = normed(R.m, rodrigues(R.m, v, k, t))[1]
        c.expect(same(R.m, o, w), 'vector-algebra', 'rotateunit', l, lambda: 'rotation is %s instead of %s' % (shrt(o), shrt(w)))


def normed(m, v):
    """(length, unit vector) with atoms that only depend on the direction"""
    v = [P(x) for x in v]
    lead = next((x for x in v if x.t), None)
    if lead is None:
        return P(0), v
    k = lead.t[min(lead.t, key=lambda z: [(x.id, e) for x, e in z])]
    u = [x.scale(1 / k) for x in v]
    n = m.fn('norm', *u, lo=TINY)
    return n.scale(abs(k)), [x.scale(1 if k > 0 else -1).mul(m.inv(n)) for x in u]


def norm_k(m, a):
    v = lds(m, a[0], 3)
    if any(not isnum(x) for x in v):
        raise build.AnalysisError('normalizing NaN')
    n, u = normed(m, v)
    for i in range(3):
        m.store(Ptr(a[0].obj, a[0].off + 8 * i), u[i], ['d'], 8)
    return n


def do_normalized(c, X):
    """constructors that normalise"""
    st = stub_map(X.prog, {NORM: norm_k})
    a, z = vec('a'), vec('b')
    for op in (50, 51):
        l = loc_of(X.prog, r'UnitVector3d::UnitVector3d\(')
        for R, o in explore1(c, X, lambda m: vecop(m, op, a, z, 1.0), st, 'unit', l):
            w = normed(R.m, a)[1]
            c.expect(same(R.m, o, w), 'vector-algebra', 'unit:%d' % op, l, lambda: 'unit vector of %s is %s' % (a, shrt(o)))
    l = loc_of(X.prog, r'UnitVector3d::UnitVector3d\(lsst::sphgeom::Angle')
    lon, lat = sym('lon', TINY, FPI), sym('lat', F(-3, 2), F(3, 2))
    for op in (57, 58):
        for R, o in explore1(c, X, lambda m: vecop(m, op, [lon, lat, 0.0], z, 1.0), {}, 'lonlat-to-vector', l):
            f = lambda n, x: P(mathfn(R.m, n, x))
            w = [f('cos', lon).mul(f('cos', lat)), f('sin', lon).mul(f('cos', lat)), f('sin', lat)]
            c.expect(same(R.m, o, w), 'lon-lat', 'lonlat-to-vector:%d' % op, l, lambda: 'vector at (%s, %s) is %s' % (lon, lat, shrt(o)))


def positive_multiple(m, o, w):
    """o is a positive multiple of w and not zero (o built from norm atoms)"""
    return all(not clear(m, t).t for t in cross(o, w)) and any(clear(m, x).t for x in o)


def do_orth1(c, X):
    st = stub_map(X.prog, {NORM: norm_k})
    l = loc_of(X.prog, r'UnitVector3d::orthogonalTo\(lsst::sphgeom::Vector3d const&\)')
    a = vec('a')
    for R, o in explore1(c, X, lambda m: vecop(m, 52, a, a, 1.0), st, 'orthogonal', l):
        m = R.m
        good = not clear(m, dot(o[:3], a)).t and unit_form(m, o[:3])
        # some component must be certain not to vanish unless a is zero
        raw = [clear(m, x) for x in o[:3]]
        nz = any(0 not in sgn(m, x) for x in raw) or never_zero(m, raw, a)
        c.expect(good and nz, 'directions', 'orth1', l, lambda: 'vector orthogonal to %s is %s; %s' % (a, shrt(o), R.path(4)))
    lon = sym('lon', F(0), FPI)
    l = loc_of(X.prog, r'UnitVector3d::orthogonalTo\(lsst::sphgeom::NormalizedAngle')
    for R, o in explore1(c, X, lambda m: vecop(m, 56, a, a, lon), {}, 'orthogonal-meridian', l):
        m = R.m
        w = [P(mathfn(m, 'sin', lon)).neg(), mathfn(m, 'cos', lon), P(0)]
        c.expect(same(m, o, w), 'directions', 'orth-meridian', l, lambda: 'vector orthogonal to the meridian %s is %s' % (lon, shrt(o)))


def unit_form(m, o):
    """normalised: every component carries the reciprocal of the same length atom"""
    nz = [P(x) for x in o if P(x).t]
    if not nz:
        return False
    def invs(p):
        return {a for k in p.t for a, e in k if a.kind == 'inv' and P(a.args[0]).single_atom() is not None and P(a.args[0]).single_atom().kind == 'norm'}
    s = set.intersection(*[invs(p) for p in nz])
    if s:
        return True
    return all(p.is_const() for p in nz) and sum(p.cval() ** 2 for p in nz) == 1


def never_zero(m, raw, a):
    """raw components vanish together only where all of a does: try the four ways components of a can vanish"""
    ids = [P(x).single_atom() for x in a]
    for mask in range(1, 8):
        z = {ids[k] for k in range(3) if not mask >> k & 1}
        if any(sgn(m, a[k]) & {0} == set() for k in range(3) if not mask >> k & 1):
            continue
        # is this pattern possible on the path?
        if not possible(m, a, mask):
            continue
        left = [Poly({k: co for k, co in p.t.items() if not any(x in z for x, e in k)}) for p in raw]
        if not any(p.t for p in left):
            return False
    return True


def possible(m, a, mask):
    """may exactly the components of mask be non-zero, given what the path learned about absolute values"""
    f = m.facts
    save = dict(f)
    iv = dict(m.__dict__.get('ivals', {}))
    try:
        for k in range(3):
            if not mask >> k & 1:
                m.learn(P(a[k]), {0})
            else:
                m.learn(P(a[k]), {-1, 1})
        for key, s in list(save.items()):
            p = P(key)
            z = {P(a[k]).single_atom() for k in range(3) if not mask >> k & 1}
            q = Poly({k: co for k, co in p.t.items() if not any(x in z for x, e in k)})
            if not m.signs(q) & s and q.t:
                return False
            if not q.t and 0 not in s:
                return False
        return True
    except Infeasible:
        return False
    finally:
        m.facts = save


def do_orth2(c, X):
    st = stub_map(X.prog, {NORM: norm_k})
    l = loc_of(X.prog, r'UnitVector3d::orthogonalTo\(lsst::sphgeom::Vector3d const&, lsst::sphgeom::Vector3d const&\)')
    a, b = vec('a'), vec('b')
    one = r'UnitVector3d::orthogonalTo\(lsst::sphgeom::Vector3d const&\)'

    def orth1(m, args):
        m.fell = lds(m, args[1], 3)
        for i in range(3):
            m.store(Ptr(args[0].obj, args[0].off + 8 * i), m.fn('orth' + XYZ[i], *m.fell), ['d'], 8)

    def go(m):
        m.fell = None
        o = vecop(m, 53, a, b, 1.0)
        return o, m.fell
    x = cross(a, b)
    for R, (o, fell) in explore1(c, X, go, dict(st, **stub_map(X.prog, {one: orth1})), 'orthogonal2', l):
        m = R.m
        if fell is not None:
            good = all(sgn(m, t) == {0} for t in x) and (same(m, fell, a) or same(m, fell, b)) and same(m, o[:3], [m.fn('orth' + k, *fell) for k in XYZ])
            c.expect(good, 'directions', 'orth2:parallel', l, lambda: 'falls back to a vector orthogonal to %s; %s' % (fell, R.path(5)))
        else:
            w = normed(m, x)[1]
            c.expect(same(m, o, w) and any(0 not in sgn(m, t) for t in x), 'directions', 'orth2', l, lambda: 'normal of %s and %s is %s; %s' % (a, b, shrt(o), R.path(5)))


def component(m, name, zero):
    if zero:
        return 0.0
    x = sym(name, TINY, BIG)
    return x.neg() if m.choose(2, 'negative') else x


def fix(m, p, label):
    """split on the sign of p"""
    if not P(p).is_const():
        m.learn(P(p), {m.choose(3, label) - 1})


def do_north(c, X):
    st = stub_map(X.prog, {NORM: norm_k})
    l = loc_of(X.prog, r'UnitVector3d::northFrom')
    for zx in range(4):
        def go(m):
            a = [component(m, 'a.' + XYZ[k], zx >> k & 1) for k in range(2)] + [component(m, 'a.z', m.choose(2, 'z'))]
            return a, vecop(m, 54, a, a, 1.0)
        for R, (a, o) in explore1(c, X, go, st, 'north', l):
            m = R.m
            if zx == 3:
                s = sgn(m, a[2])
                # at a pole: the direction of longitude 180 from the north pole, of longitude 0 from the south pole
                w = [-1.0 if s == {1} else 1.0, 0.0, 0.0]
                good = s == {0} or same(m, o, w)
            else:
                good = not clear(m, dot(o[:3], a)).t and not clear(m, sub(P(o[0]).mul(P(a[1])), P(o[1]).mul(P(a[0])))).t and unit_form(m, o[:3])
                up = clear(m, o[2])
                good = good and all(co > 0 and all(e % 2 == 0 or x.kind in ('norm', 'inv') for x, e in k) for k, co in up.t.items()) and up.t
            c.expect(bool(good), 'directions', 'north:%d' % zx, l, lambda: 'north from %s is %s; %s' % (a, shrt(o), R.path(4)))


def do_directions(c, X):
    """fallbacks end to end: orthogonalTo(v, v) really is orthogonal to v"""
    st = stub_map(X.prog, {NORM: norm_k})
    l = loc_of(X.prog, r'UnitVector3d::orthogonalTo\(lsst::sphgeom::Vector3d const&, lsst::sphgeom::Vector3d const&\)')
    a = vec('a')
    for sc in (1, -1, 3):
        b = [P(x).scale(sc) for x in a]
        for R, o in explore1(c, X, lambda m: vecop(m, 53, a, b, 1.0), st, 'orthogonal2', l):
            c.expect(not clear(R.m, dot(o[:3], a)).t and unit_form(R.m, o[:3]), 'directions', 'orth2:%d' % sc, l,
                     lambda: 'vector orthogonal to %s and %d times it is %s' % (a, sc, shrt(o)))


# ---- matrices -------------------------------------------------------------------
def mat(n):
    return [sym('%s%d%d' % (n, i, j), -BIG, BIG) for i in range(3) for j in range(3)]


def matop(m, op, a, b, s, n):
    o = outbuf(m, 9)
    m.call('h_mat', [op, buf(m, a), buf(m, b), s, o])
    return lds(m, o, n)


def do_matrix(c, X):
    a, b, s = mat('a'), mat('b'), sym('s', -BIG, BIG)
    at = lambda w, i, j: P(w[3 * i + j])
    ij = [(i, j) for i in range(3) for j in range(3)]

    def table(m):
        prod = [dot([at(a, i, k) for k in range(3)], [at(b, k, j) for k in range(3)]) for i, j in ij]
        return {0: a, 1: [b[i] if i == j else P(0) for i, j in ij], 2: [s if i == j else P(0) for i, j in ij], 3: a, 4: [at(a, j, i) for i, j in ij],
                5: [dot(a, b)], 6: [dot(a, a)], 7: [mathfn(m, 'sqrt', dot(a, a))], 8: [dot(a[3 * i:3 * i + 3], b[:3]) for i in range(3)], 9: prod,
                10: [P(x).add(P(y)) for x, y in zip(a, b)], 11: [sub(x, y) for x, y in zip(a, b)], 12: [P(x).mul(P(y)) for x, y in zip(a, b)],
                13: [at(a, j, i) for i, j in ij], 15: [P(0)] * 9}
    for op in [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15]:
        l = loc_of(X.prog, 'sphgeom::Matrix3d::')
        n = {5: 1, 6: 1, 7: 1, 8: 3}.get(op, 9)
        for R, o in explore1(c, X, lambda m: matop(m, op, a, b, s, n), {}, 'matrix:%d' % op, l):
            w = table(R.m)[op]
            c.expect(same(R.m, o, w), 'matrix-algebra', 'matrix:%d' % op, l, lambda: 'case %d of h_mat: %s instead of %s' % (op, shrt(o), shrt(w)))
    l = loc_of(X.prog, 'Matrix3d::operator==')
    for k in range(9):
        w = list(a)
        w[k] = sym('other', -BIG, BIG)
        for R, o in explore1(c, X, lambda m: matop(m, 16, a, w, s, 2), {}, 'matrix:16', l):
            t = sgn(R.m, sub(a[k], w[k]))
            c.expect((t == {0} if o[0] == 1 else 0 not in t) and o[1] == 1 - o[0], 'matrix-algebra', 'equal', l, lambda: 'matrices differing at most in element %d: == is %s, != is %s' % (k, o[0], o[1]))


def do_inverse(c, X):
    l = loc_of(X.prog, 'Matrix3d::inverse')
    a = mat('a')
    for R, o in explore1(c, X, lambda m: matop(m, 14, a, a, 1.0, 9), {}, 'matrix:14', l):
        for i in range(3):
            for j in range(3):
                p = dot(a[3 * i:3 * i + 3], [o[3 * k + j] for k in range(3)]).add(P(-1 if i == j else 0))
                c.expect(not clear(R.m, p).t, 'matrix-algebra', 'inverse:%d%d' % (i, j), l, lambda: 'element %d%d of m * m.inverse() is not that of the identity' % (i, j))


# ---- angles ---------------------------------------------------------------------
def do_angle(c, X):
    l = loc_of(X.prog, 'sphgeom::Angle::')
    a, b = sym('a', -BIG, BIG), sym('b', TINY, BIG)

    def table(m):
        inv = m.inv(b)
        add, d, mu, dv = P(a).add(P(b)), sub(a, b), P(a).mul(P(b)), P(a).mul(inv)
        return {0: P(a).neg(), 1: add, 2: d, 3: mu, 4: mu, 5: dv, 6: dv, 7: add, 8: d, 9: mu, 10: dv, 13: a, 14: mathfn(m, 'sin', a), 15: mathfn(m, 'cos', a), 16: mathfn(m, 'tan', a), 26: P(0)}
    for op in [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14, 15, 16, 26]:
        for R, o in explore1(c, X, lambda m: m.call('h_ang', [op, a, b]), {}, 'angle:%d' % op, l):
            w = table(R.m)[op]
            c.expect(same(R.m, [o], [w]), 'angle-arithmetic', 'angle:%d' % op, l, lambda: 'case %d of h_ang: %s instead of %s' % (op, shrt(o), shrt(w)))
    import sys
    k = F(math.pi) / 180
    for op, fac in ((11, 1 / k), (12, k)):
        for R, o in explore1(c, X, lambda m: m.call('h_ang', [op, a, b]), {}, 'degrees', l):
            q = P(o) if isnum(o) else P(0)
            good = list(q.t) == list(P(a).t) and abs(next(iter(q.t.values())) / fac - 1) < F(1, 2**51)
            c.expect(good, 'angle-arithmetic', 'degrees:%d' % op, l, lambda: 'degree conversion gives %s' % shrt(o))
    for R, o in explore1(c, X, lambda m: m.call('h_ang', [17, a, b]), {}, 'abs', l):
        s = sgn(R.m, a)
        c.expect(isnum(o) and sgn(R.m, o) <= {0, 1} and not clear(R.m, sub(P(o).mul(P(o)), P(a).mul(P(a)))).t or is_abs(R.m, o, a), 'angle-arithmetic', 'abs', l, lambda: 'abs(%s) is %s' % (a, o))
    for op in (24, 25):
        for v in (a, NAN, 0.0, 2 * PI, math.nextafter(2 * PI, 10), -1e-300, INF, -INF):
            for R, o in explore1(c, X, lambda m: m.call('h_ang', [op, v, 0.0]), {}, 'angle-state', l):
                if op == 25:
                    good = o == (0.0 if isnum(v) else 1.0)
                elif isinstance(v, float):
                    good = o == float(0 <= v <= 2 * PI)
                else:
                    lo, hi = sgn(R.m, v), sgn(R.m, sub(v, 2 * PI))
                    good = lo <= {0, 1} and hi <= {0, -1} if o == 1 else lo == {-1} or hi == {1}
                c.expect(good, 'angle-arithmetic', 'state:%d' % op, l, lambda: '%s of %s is %s' % ('isNormalized' if op == 24 else 'isNan', v, o))
    for op in (27,):
        for R, o in explore1(c, X, lambda m: m.call('h_ang', [op, 0.0, 0.0]), {}, 'angle-nan', l):
            c.expect(isinstance(o, float) and o != o, 'angle-arithmetic', 'nan', l, 'nan() is %s' % o)


def is_abs(m, o, a):
    return isnum(o) and ge(m, o, a) and ge(m, o, P(a).neg()) and all(not sub(o, x).t or not P(o).add(P(x)).t for x in [a]) or not sub(o, m_abs(m, a)).t


def m_abs(m, a):
    r = mathfn(m, 'fabs', a) if False else P(a)
    return r


def do_compare(c, X):
    import operator as O
    ops = [O.eq, O.ne, O.lt, O.gt, O.le, O.ge]
    for fn, base, lname in (('h_ang', 18, 'sphgeom::Angle::operator'), ('h_nang', 16, 'sphgeom::NormalizedAngle::operator')):
        l = loc_of(X.prog, lname)
        for k, op in enumerate(ops):
            for ra, rb in order_types(2):
                x = [NAN if r is None else float(r) for r in (ra, rb)]
                for R, o in explore1(c, X, lambda m: m.call(fn, [base + k] + x), {}, 'compare', l):
                    c.expect(o == float(op(*x)), 'angle-arithmetic', 'compare:%s:%d' % (fn, k), l, lambda: '%s of %s and %s is %s' % (op.__name__, x[0], x[1], o))


def do_circleangle(c, X):
    """separation of a point at latitude x and the parallel at latitude y: |x - y| to pi - |x + y|"""
    for op, nm in ((28, 'getMinAngleToCircle'), (29, 'getMaxAngleToCircle')):
        l = loc_of(X.prog, 'sphgeom::' + nm)
        h = FPI / 2
        for sx in (-1, 0, 1):
            for sy in (-1, 0, 1):
                x = 0.0 if sx == 0 else sym('x', TINY if sx > 0 else -h, h if sx > 0 else -TINY)
                y = 0.0 if sy == 0 else sym('y', TINY if sy > 0 else -h, h if sy > 0 else -TINY)
                def go(m):
                    fix(m, sub(x, y), 'd')
                    fix(m, P(x).add(P(y)), 't')
                    return m.call('h_ang', [op, x, y])
                for R, o in explore1(c, X, go, {}, nm, l):
                    m = R.m
                    p = sub(x, y) if op == 28 else P(x).add(P(y))
                    s = sgn(m, p)
                    if len(s) != 1:
                        raise build.AnalysisError('sign not fixed')
                    p = p.scale(next(iter(s)))
                    w = p if op == 28 else P(PI).add(p, -1)
                    c.expect(isnum(o) and sgn(m, sub(o, w)) == {0}, 'angle-arithmetic', nm, l, lambda: '%s(%s, %s) is %s instead of %s; %s' % (nm, x, y, o, w, R.path(5)))


def fmod_stub(m, a):
    x, y = a
    if isinstance(x, float) and isinstance(y, float):
        return NAN if x != x or y != y or abs(x) == INF or y == 0 else math.fmod(x, y)
    if not isnum(x) or not isnum(y):
        return NAN
    if isinstance(x, float) and abs(x) == INF:
        return NAN
    if not isinstance(y, float):
        q = P(y)
        if not q.is_const():
            raise build.AnalysisError('fmod with a variable divisor')
        y = q.cval()
    y = abs(F(y))
    m.moduli = getattr(m, 'moduli', []) + [y]
    s = sgn(m, x)
    r = m.fn('fmod', P(x), P(y), lo=-y if -1 in s else 0, hi=y if 1 in s else 0)
    if s <= {0, 1}:
        m.learn(r.add(P(-y)), {-1})
    elif s <= {-1, 0}:
        m.learn(r.add(P(y)), {1})
    return r


def do_normangle(c, X):
    l = loc_of(X.prog, r'NormalizedAngle::NormalizedAngle\(double\)')
    T = F(2 * PI)
    cases = [sym('a', -BIG, -TINY), sym('a', F(0), T), sym('a', T + TINY, BIG)]
    for op in (0, 1, 2, 3):
        for a in cases:
            if op == 3:
                a = P(a).scale(57)

            def go(m):
                m.moduli = []
                if op == 3:
                    # the argument in radians decides
                    m.learn(P(a), {m.choose(3, 's') - 1})
                return m.call('h_nang', [op, a, 0.0])
            for R, o in explore1(c, X, go, {'fmod': fmod_stub}, 'normalize-angle', l):
                m = R.m
                good = isnum(o) and sgn(m, o) <= {0, 1} and sgn(m, sub(o, T)) <= {0, -1}
                if good:
                    x = P(a) if op < 3 else None
                    q = P(o)
                    fm = [z for k in q.t for z, e in k if z.kind == 'fmod']
                    if fm:
                        z = fm[0]
                        rest = q.add(Poly.of(z), -1)
                        arg = z.args[0]
                        good = len(q.t) <= 2 and rest.is_const() and (rest.cval() / T).denominator == 1 and z.args[1].cval() == T
                    else:
                        arg = q
                    if op < 3:
                        good = good and not sub(arg, x).t
                    else:
                        co = next(iter(P(arg).t.values())) / next(iter(P(a).t.values())) * 180 / F(math.pi)
                        good = good and list(P(arg).t) == list(P(a).t) and abs(co - 1) < F(1, 2**51)
                c.expect(bool(good), 'angle-arithmetic', 'normangle:%d' % op, l, lambda: '%s normalizes to %s; %s' % (a, o, R.path(4)))
        for v in (NAN, INF, -INF):
            for R, o in explore1(c, X, lambda m: m.call('h_nang', [op, v, 0.0]), {'fmod': fmod_stub}, 'normalize-angle', l):
                c.expect(not isnum(o), 'angle-arithmetic', 'normangle:special', l, lambda: '%s normalizes to %s' % (v, o))


def do_nangle2(c, X):
    T = F(2 * PI)
    a, b = sym('a', TINY, T), sym('b', TINY, T)
    nm = {4: 'between', 5: 'center', 6: 'getAngleTo'}
    for op in (4, 5, 6):
        l = loc_of(X.prog, 'NormalizedAngle::' + nm[op])
        for za in (a, 0.0, 2 * PI):
            for zb in (b, 0.0, 2 * PI):
                def go(m):
                    fix(m, sub(za, zb), 'o')
                    return m.call('h_nang', [op, za, zb])
                for R, o in explore1(c, X, go, {}, nm[op], l):
                    m = R.m
                    d = sub(zb, za)
                    s = sgn(m, d)
                    if op == 6:
                        w = d.add(P(T)) if s == {-1} else d
                        good = sgn(m, sub(o, w)) == {0}
                    elif op == 5:
                        mid = P(za).add(P(zb)).scale(F(1, 2))
                        if s <= {0, 1}:
                            good = sgn(m, sub(o, mid)) == {0}
                        else:
                            e = sub(o, mid)
                            good = any(sgn(m, e.add(P(k * FPI))) == {0} for k in (-1, 1)) and sgn(m, o) <= {0, 1} and sgn(m, sub(o, T)) <= {-1, 0}
                    else:
                        e = d.scale(-1 if s == {-1} else 1)
                        cand = [e, P(T).add(e, -1)]
                        good = any(sgn(m, sub(o, w)) == {0} for w in cand) and all(ge(m, w, o) for w in cand) or is_min(m, o, cand)
                    c.expect(isnum(o) and good, 'angle-arithmetic', nm[op], l, lambda: '%s(%s, %s) is %s; %s' % (nm[op], za, zb, o, R.path(4)))
    l = loc_of(X.prog, 'sphgeom::NormalizedAngle::')
    x, y = a, sym('y', TINY, BIG)
    for op in (7, 8, 9, 10, 11, 12, 14, 22):
        for R, o in explore1(c, X, lambda m: m.call('h_nang', [op, x, y]), {}, 'normalized-arithmetic', l):
            m = R.m
            w = {7: P(x).neg(), 8: P(x).add(P(y)), 9: sub(x, y), 10: P(x).mul(P(y)), 11: P(x).mul(m.inv(y)), 12: P(x).mul(m.inv(y)), 14: x, 22: P(0)}[op]
            c.expect(same(m, [o], [w]), 'angle-arithmetic', 'nang:%d' % op, l, lambda: 'case %d of h_nang: %s instead of %s' % (op, shrt(o), shrt(w)))
    for op, v, w in ((15, 1.0, 0.0), (15, NAN, 1.0), (23, 0.0, None)):
        for R, o in explore1(c, X, lambda m: m.call('h_nang', [op, v, 0.0]), {}, 'normalized-nan', l):
            c.expect(o == w if w is not None else o != o, 'angle-arithmetic', 'nang:%d' % op, l, lambda: 'case %d of h_nang of %s is %s' % (op, v, o))
    k = F(math.pi) / 180
    for R, o in explore1(c, X, lambda m: m.call('h_nang', [13, x, 0.0]), {}, 'normalized-degrees', l):
        q = P(o)
        c.expect(list(q.t) == list(P(x).t) and abs(next(iter(q.t.values())) * k - 1) < F(1, 2**51), 'angle-arithmetic', 'nang:13', l, lambda: 'degrees of %s: %s' % (x, o))


def is_min(m, o, cand):
    from absint import minmax
    return not sub(o, minmax(m, False, *cand)).t or not sub(o, minmax(m, False, *reversed(cand))).t


def do_nanprop(c, X):
    l = loc_of(X.prog, 'NormalizedAngle::')
    for op in (4, 5, 6):
        for x, y in ((NAN, 1.0), (1.0, NAN), (NAN, NAN)):
            for R, o in explore1(c, X, lambda m: m.call('h_nang', [op, x, y]), {}, 'nan', l):
                if not (op == 4 and False):
                    c.expect(not isnum(o), 'nan-propagates', 'nan:%d' % op, l, lambda: 'case %d of h_nang of %s and %s is %s' % (op, x, y, o))
    l = loc_of(X.prog, r'LonLat::LonLat')
    for op in (3,):
        for mask in range(1, 8):
            v = [NAN if mask >> k & 1 else sym('v.' + XYZ[k], -BIG, BIG) for k in range(3)]
            for R, o in explore1(c, X, lambda m: lonlat(m, op, v, v), {}, 'nan', l):
                c.expect(not isnum(o[0]) and not isnum(o[1]), 'nan-propagates', 'lonlat-nan', l, lambda: 'longitude and latitude of a vector with NaN components %s are %s' % (bin(mask), o))
    for op in (0, 1, 2):
        for v in ([NAN, 1.0], [1.0, NAN], [NAN, NAN]):
            for R, o in explore1(c, X, lambda m: lonlat(m, op, v, v), {}, 'nan', l):
                c.expect(not isnum(o[0]) and not isnum(o[1]), 'nan-propagates', 'lonlat-nan', l, lambda: 'LonLat of %s is %s' % (v, o))


# ---- longitude and latitude -----------------------------------------------------
def lonlat(m, op, a, b):
    o = outbuf(m, 2)
    m.call('h_lonlat', [op, buf(m, a), buf(m, b), o])
    return lds(m, o, 1 if op >= 7 else 2)


def do_lonlat(c, X):
    l = loc_of(X.prog, r'LonLat::LonLat\(lsst::sphgeom::NormalizedAngle')
    h = F(PI) / 2
    for op in (0, 1, 2):
        for nm, lat in (('low', sym('lat', -BIG, -h - TINY)), ('in', sym('lat', -h, h)), ('high', sym('lat', h + TINY, BIG)), ('pole', PI / 2), ('-pole', -PI / 2)):
            lon = sym('lon', F(0), F(2 * PI))
            if op == 2:
                if nm in ('pole', '-pole'):
                    lat = 90.0 if nm == 'pole' else -90.0
                else:
                    lat = {'low': sym('lat', -BIG, F(-91)), 'in': sym('lat', F(-89), F(89)), 'high': sym('lat', F(91), BIG)}[nm]
                lon = sym('lon', F(0), F(359))
            for R, o in explore1(c, X, lambda m: lonlat(m, op, [lon, lat], [0.0]), {'fmod': fmod_stub}, 'lonlat', l, throws=True):
                bad = nm in ('low', 'high')
                if bad or o is None:
                    c.expect(bad and o is None and 'invalid_argument' in str(R.exc), 'lon-lat', 'ctor:%d:%s' % (op, nm), l, lambda: 'latitude %s: %s' % (lat, o))
                    continue
                k = F(math.pi) / 180 if op == 2 else F(1)
                d = [sub(o[1], P(lat).scale(k)), sub(o[0], P(lon).scale(k))]
                c.expect(all(abs_tiny(R.m, x) for x in d), 'lon-lat', 'ctor:%d:%s' % (op, nm), l, lambda: 'LonLat(%s, %s) is %s' % (lon, lat, o))
    for R, o in explore1(c, X, lambda m: lonlat(m, 5, [0.0], [0.0]), {}, 'lonlat', l):
        c.expect(o == [0.0, 0.0], 'lon-lat', 'default', l, 'default LonLat is %s' % o)
    l = loc_of(X.prog, r'LonLat::operator==')
    for x in ([1.0, 0.5], [1.0, 0.25], [2.0, 0.5], [2.0, 0.25], [NAN, NAN]):
        for y in ([1.0, 0.5], [NAN, NAN]):
            for R, o in explore1(c, X, lambda m: lonlat(m, 6, x, y), {}, 'lonlat-equal', l):
                c.expect(o == [float(x == y), float(x != y)] if isnum(x[0]) and isnum(y[0]) else o == [0.0, 1.0], 'lon-lat', 'equal', l, lambda: '%s == %s is %s, != is %s' % (x, y, o[0], o[1]))


def abs_tiny(m, p):
    e = F(1, 2**30)
    return sgn(m, p.add(P(-e))) <= {-1} and sgn(m, p.add(P(e))) <= {1}


def do_vectolonlat(c, X):
    ll, lb = loc_of(X.prog, r'LonLat::longitudeOf'), loc_of(X.prog, r'LonLat::latitudeOf')
    h = F(PI) / 2
    for op in (3, 4):
        for signs in itertools.product((-1, 0, 1), repeat=3):
            v = [0.0 if s == 0 else sym('v.' + k, TINY if s > 0 else -BIG, BIG if s > 0 else -TINY) for s, k in zip(signs, XYZ)]

            def atan2(m, a):
                y, x = a
                if isinstance(x, float) and isinstance(y, float):
                    return NAN if x != x or y != y else math.atan2(y, x)
                sy, sx = sgn(m, y), sgn(m, x)
                lo, hi = -FPI, FPI
                if sy <= {0, 1}:
                    lo = F(0)
                if sy <= {-1, 0}:
                    hi = F(0)
                if sx <= {0, 1}:
                    lo, hi = max(lo, -h), min(hi, h)
                r = m.fn('atan2', P(y), P(x), lo=lo, hi=hi)
                if len(sy) == 1 and 0 not in sy:
                    m.learn(r, sy)
                return r
            for R, o in explore1(c, X, lambda m: lonlat(m, op, v, v), {'atan2': atan2}, 'vector-to-lonlat', ll):
                m = R.m
                good = isnum(o[0]) and sgn(m, o[0]) <= {0, 1} and sgn(m, sub(o[0], 2 * PI)) <= {-1, 0}
                if signs[0] == 0 and signs[1] == 0:
                    good = good and P(o[0]) == P(0)
                else:
                    w = atan2(m, [v[1], v[0]])
                    good = good and any(not sub(o[0], P(w).add(P(k * F(2 * PI)))).t for k in (0, 1))
                c.expect(good, 'lon-lat', 'longitude', ll, lambda: 'longitude of %s is %s; %s' % (v, o[0], R.path(3)))
                d = mathfn(m, 'sqrt', dot(v[:2], v[:2]))
                d = float(P(d).cval()) if P(d).is_const() else d
                w = atan2(m, [v[2], d]) if signs[2] else 0.0
                good = isnum(o[1]) and not sub(o[1], w).t
                if not good and isnum(o[1]) and P(o[1]).is_const() and abs(P(o[1]).cval()) == h:
                    # a clamped latitude: only where the unclamped one is beyond the pole, or at it
                    g = sgn(m, sub(w, h)) if P(o[1]).cval() > 0 else sgn(m, P(w).add(P(h)))
                    good = g <= ({0, 1} if P(o[1]).cval() > 0 else {-1, 0})
                c.expect(good, 'lon-lat', 'latitude', lb, lambda: 'latitude of %s is %s; %s' % (v, o[1], R.path(3)))


def half_trig(m, name, p):
    """sin or cos of a linear form with half integer coefficients, expanded into functions of half the symbols"""
    p = P(p)
    terms = []
    for k, co in sorted(p.t.items(), key=lambda kv: kv[0][0][0].id if kv[0] else -1):
        if not k or len(k) != 1 or k[0][1] != 1 or (co * 2).denominator != 1 or abs(co) > 4:
            return None
        terms.append((k[0][0], int(co * 2)))
    C, S = P(1), P(0)
    for a, n in terms:
        s1 = m.fn('sin', Poly.of(a).scale(F(1, 2)))
        c1 = m.fn('cos', Poly.of(a).scale(F(1, 2)))
        if n < 0:
            s1 = s1.neg()
        for _ in range(abs(n)):
            C, S = C.mul(c1).add(S.mul(s1), -1), S.mul(c1).add(C.mul(s1))
    return pyth(m, S if name == 'sin' else C)


def trig_stub(name):
    def f(m, a):
        if isinstance(a[0], float):
            return mathfn(m, name, a[0])
        r = half_trig(m, name, a[0])
        return mathfn(m, name, a[0]) if r is None else r
    return f


def do_haversine(c, X):
    l = loc_of(X.prog, r'NormalizedAngle::NormalizedAngle\(lsst::sphgeom::LonLat')
    h = F(PI) / 2
    a = [sym('lon1', TINY, F(2 * PI)), sym('lat1', -h, h)]
    b = [sym('lon2', TINY, F(2 * PI)), sym('lat2', -h, h)]
    # the engine spells fabs with a sign split; latitudes may be of either sign
    st = {'sin': trig_stub('sin'), 'cos': trig_stub('cos')}
    for R, o in explore1(c, X, lambda m: lonlat(m, 7, a, b), st, 'angle-between-positions', l):
        m = R.m
        t = lambda n, p: half_trig(m, n, p)
        sd = t('sin', sub(a[0], b[0]).scale(F(1, 2)))
        sl = t('sin', sub(a[1], b[1]).scale(F(1, 2)))
        w = pyth(m, sl.mul(sl).add(t('cos', a[1]).mul(t('cos', b[1])).mul(sd.mul(sd))))
        v = o[0]
        good = False
        if isnum(v):
            q = P(v)
            if q.is_const():
                good = any(pair_fact(m, w, k, s) for k, s in ((F(0), {-1, 0}),)) if q.cval() == 0 else q.cval() == FPI and pair_fact(m, w, F(1), {0, 1})
            else:
                at = q.scale(F(1, 2)).single_atom()
                if at is not None and at.kind == 'asin':
                    r = at.args[0].single_atom()
                    good = r is not None and r.kind == 'sqrt' and not pyth(m, sub(r.args[0], w)).t
        c.expect(good, 'lon-lat', 'haversine', l, lambda: 'angle between (%s, %s) and (%s, %s) is %s; %s' % (a[0], a[1], b[0], b[1], shrt(v), R.path(2)))


def pair_fact(m, w, k, s):
    """a condition learned on this path says that w - k has a sign in s"""
    for key, sg in m.facts.items():
        p = P(key)
        for f in (1, -1):
            # the fact is normalised up to a positive factor
            q = pyth(m, p.scale(f))
            w0 = sub(w, P(k))
            if not q.t or not w0.t:
                continue
            k0 = next(iter(w0.t))
            if k0 not in q.t:
                continue
            r = q.t[k0] / w0.t[k0]
            if r > 0 and not q.add(w0.scale(r), -1).t and {x * f for x in sg} <= s:
                return True
    return False


def do_vecangle(c, X):
    l = loc_of(X.prog, r'NormalizedAngle::NormalizedAngle\(lsst::sphgeom::Vector3d')
    a, b = vec('a'), vec('b')
    n = cross(a, b)

    def atan2(m, args):
        if all(isinstance(P(x).is_const() and float(P(x).cval()), float) and P(x).is_const() for x in args):
            return math.atan2(float(P(args[0]).cval()), float(P(args[1]).cval()))
        return m.fn('atan2', P(args[0]), P(args[1]))
    for R, o in explore1(c, X, lambda m: lonlat(m, 8, a, b), {'atan2': atan2}, 'angle-between-vectors', l):
        m = R.m
        s = mathfn(m, 'sqrt', dot(n, n))
        d = dot(a, b)
        v = o[0]
        if isnum(v) and P(v).is_const():
            good = P(v).cval() == 0 and sgn(m, s) == {0} and sgn(m, d) == {0}
        else:
            at = P(v).single_atom()
            good = at is not None and at.kind == 'atan2' and not clear(m, sub(at.args[0], s)).t and not clear(m, sub(at.args[1], d)).t
        c.expect(good, 'lon-lat', 'vecangle', l, lambda: 'angle between %s and %s is %s; %s' % (a, b, shrt(v), R.path(3)))


# ---- utilities ------------------------------------------------------------------
def util(m, op, v, a, b, n, k):
    o = outbuf(m, 3)
    m.call('h_util', [op, buf(m, v), buf(m, a), buf(m, b), buf(m, n), o])
    return lds(m, o, k)


def do_chord(c, X, op):
    nm = 'get%sSquaredChordLength' % ('Max' if op else 'Min')
    l = loc_of(X.prog, 'sphgeom::' + nm)
    v, a, b, n = vec('v'), vec('a'), vec('b'), vec('n')

    def go(m):
        x = cross(v, n)
        fix(m, dot(x, a), 'a')
        fix(m, dot(x, b), 'b')
        return util(m, op, v, a, b, n, 1)
    for R, o in explore1(c, X, go, {}, nm, l):
        m = R.m
        x = cross(v, n)
        sa, sb = sgn(m, dot(x, a)), sgn(m, dot(x, b))
        want = {1} if op == 0 else {-1}
        inside = sa == want and sb == {-next(iter(want))}
        if not inside:
            c.expect(P(o[0]) == P(0 if op else 4), 'chord-to-edge', nm + ':outside', l, lambda: 'a vector outside the lune gives %s; %s' % (o[0], R.path(4)))
            continue
        q = P(o[0]).scale(F(1, 4))
        ok = False
        if q.is_const():
            # sin^2 of a quarter turn: c is zero
            ok = abs(q.cval() - F(1, 2)) < F(1, 10**12) and sgn(m, mathfn(m, 'sqrt', dot(x, x))) == {0}
        else:
            q = P(1).add(pyth(m, q), -1)
            (k, co) = next(iter(q.t.items())) if len(q.t) == 1 else ((), 0)
            if co == 1 and len(k) == 1 and k[0][1] == 2 and k[0][0].kind == 'cos':
                t = k[0][0].args[0].scale(2)
                t = t.scale(1).single_atom() or t.neg().single_atom()
                nrm = mathfn(m, 'sqrt', dot(x, x))
                d = dot(v, n)
                if t is not None and t.kind == 'atan2':
                    y, z = t.args
                    ok = not clear(m, sub(y.mul(y), d.mul(d))).t and sgn(m, y) <= {0, 1} and not clear(m, sub(z, nrm.scale(-1 if op else 1))).t
                elif t is not None and t.kind == 'atan' and op == 0:
                    y = t.args[0]
                    ok = not clear(m, sub(y.mul(y).mul(dot(x, x)), d.mul(d))).t
        c.expect(ok, 'chord-to-edge', nm, l, lambda: '%s is %s; %s' % (nm, shrt(o[0]), R.path(5)))


def do_centroid(c, X, op):
    """sum over the edges of normal times length (Brock 1974)"""
    l = loc_of(X.prog, 'getWeightedCentroid' if op == 2 else r'ConvexPolygon::getCentroid')
    st = stub_map(X.prog, {NORM: norm_k})
    k = 4 if op == 4 else 3
    p = [vec('p%d' % i, F(-1), F(1)) for i in range(k)]
    tri = loc_of(X.prog, 'getWeightedCentroid')
    orient = stub_map(X.prog, {r'sphgeom::orientation\(': lambda m, a: 1}, required=False)

    def go(m):
        return util(m, op, p[0], p[1], p[2], p[3] if k == 4 else p[0], 3)
    for R, o in explore1(c, X, go, dict(st, **orient), 'centroid', l):
        m = R.m
        w = [P(0)] * 3
        for i in range(k):
            u, v = p[i], p[(i + 1) % k]
            n, e = normed(m, cross(u, v))
            t = m.fn('atan2', n, dot(u, v))
            w = [x.add(y.mul(t)) for x, y in zip(w, e)]
        if op == 2:
            w = [x.scale(F(1, 2)) for x in w]
        else:
            # positive multiples are the same direction
            w = normed(m, w)[1]
        good = same(m, o, w)
        c.expect(good, 'centroid', 'centroid:%d' % op, l, lambda: 'centroid is %s instead of %s' % (shrt(o), shrt(w)))


def do_boxarea(c, X):
    l = loc_of(X.prog, r'Box::getArea')
    h = F(PI) / 2
    T = F(2 * PI)
    a, b, s, t = sym('a', TINY, T), sym('b', TINY, T), sym('s', -h, h), sym('t', -h, h)

    def go(m):
        fix(m, sub(a, b), 'lon')
        m.learn(sub(s, t), {m.choose(2, 'lat') - 1})
        return util(m, 5, [a, b], [s, t], [0.0], [0.0], 1)
    for R, o in explore1(c, X, go, {}, 'box-area', l):
        m = R.m
        wd = sub(b, a) if sgn(m, sub(a, b)) <= {-1, 0} else sub(b, a).add(P(T))
        dz = sub(mathfn(m, 'sin', t), mathfn(m, 'sin', s))
        w = wd.mul(dz)
        good = isnum(o[0]) and (sgn(m, sub(o[0], w)) == {0} or sgn(m, P(o[0]).add(w)) == {0} and sgn(m, w) <= {-1, 0})
        c.expect(good, 'box-area', 'area', l, lambda: 'area of longitudes %s to %s, latitudes %s to %s is %s' % (a, b, s, t, shrt(o)))
    for v, u in (([PI, PI + 1], [1.0, 0.0]), ([NAN, NAN], [0.0, 1.0])):
        for R, o in explore1(c, X, lambda m: util(m, 5, v, u, [0.0], [0.0], 1), {}, 'box-area', l):
            c.expect(o[0] == 0.0, 'box-area', 'empty', l, 'area of an empty box is %s' % o[0])
