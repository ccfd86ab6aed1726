"""C03: boxes (lon/lat and 3-d) are products of intervals and keep their
invariants."""
import math
from common import *
from framework import parallel
from c_C02 import cyc_types, points, pset, T, TWO_PI, fmod_stub

EXPLANATION = (
    'Abstract interpretation of the linked IR of the public members of Box and Box3d over order types of all end points '
    '(longitudes cyclic, latitudes relative to -pi/2 and pi/2, NaN anywhere). Predicates are compared with products of point '
    'sets, modifications with the component interval operation (decided by C01 and C02) followed by the documented invariants: '
    'latitudes within [-pi/2, pi/2] and components empty together. All order types of one component are combined with '
    'representatives of the others.')
ASSUMPTIONS = ['component interval operations are those decided by C01 and C02', 'exact real arithmetic in dilations']
H = math.pi / 2
HF = Fraction(H)

HARNESS = r'''
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/Box3d.h"
using namespace lsst::sphgeom;
typedef NormalizedAngleInterval L; typedef AngleInterval A; typedef NormalizedAngle N;
static inline int R(Relationship r) { return ((r & CONTAINS) != 0 ? 1 : 0) + ((r & DISJOINT) != 0 ? 2 : 0) + ((r & WITHIN) != 0 ? 4 : 0); }
static L lon(double const *v) { return L(N(v[0]), N(v[1])); }
static A lat(double const *v) { return A(Angle(v[2]), Angle(v[3])); }
static Box bx(double const *v) { return Box(lon(v), lat(v)); }
static void put(double *o, L const &l, A const &a) { o[0] = l.getA().asRadians(); o[1] = l.getB().asRadians(); o[2] = a.getA().asRadians(); o[3] = a.getB().asRadians(); }
static void put(double *o, Box const &b) { put(o, b.getLon(), b.getLat()); }
static LonLat ll(double const *v) { double w[2] = {v[0], v[1]}; return reinterpret_cast<LonLat const &>(w); }
extern "C" void h_ctor(double const *v, double *o, long *f) { Box b = bx(v); put(o, b); f[0] = b.isEmpty(); f[1] = b.isFull(); }
extern "C" void h_pred(double const *v, double const *w, long *o) { Box const x = bx(v), y = bx(w);
  o[0] = x.contains(y); o[1] = x.isDisjointFrom(y); o[2] = x.intersects(y); o[3] = x.isWithin(y); o[4] = R(x.relate(y)); o[5] = (x == y); o[6] = (x != y);
  o[7] = x.isEmpty(); o[8] = x.isFull(); }
extern "C" void h_pt(double const *v, double const *w, long *o) { Box const x = bx(v); LonLat y = ll(w);
  o[0] = x.contains(y); o[1] = x.isDisjointFrom(y); o[2] = x.intersects(y); o[3] = x.isWithin(y); o[4] = R(x.relate(y)); o[5] = (x == y); o[6] = (x != y);
  o[7] = x.isEmpty(); o[8] = x.isFull(); }
extern "C" void h_mod(double const *v, double const *w, long op, double *o) { Box x = bx(v), y = bx(w); Box c(x); L l = x.getLon(); A a = x.getLat();
  switch (op) {
    case 0: put(o, c.clipTo(y)); put(o + 4, x.clippedTo(y)); l.clipTo(y.getLon()); a.clipTo(y.getLat()); break;
    case 1: put(o, c.expandTo(y)); put(o + 4, x.expandedTo(y)); l.expandTo(y.getLon()); a.expandTo(y.getLat()); break;
    case 2: { LonLat p = ll(w); put(o, c.clipTo(p)); put(o + 4, x.clippedTo(p)); l.clipTo(p.getLon()); a.clipTo(p.getLat()); break; }
    case 3: { LonLat p = ll(w); put(o, c.expandTo(p)); put(o + 4, x.expandedTo(p)); l.expandTo(p.getLon()); a.expandTo(p.getLat()); break; }
  }
  put(o + 8, l, a); put(o + 12, x); put(o + 16, c); put(o + 20, y); }
extern "C" void h_dil(double const *v, double w, double h, long op, double *o) { Box x = bx(v); Box c(x); L l = x.getLon(); A a = x.getLat();
  if (op == 0) { put(o, c.dilateBy(Angle(w), Angle(h))); put(o + 4, x.dilatedBy(Angle(w), Angle(h))); l.dilateBy(Angle(w)); }
  else { put(o, c.erodeBy(Angle(w), Angle(h))); put(o + 4, x.erodedBy(Angle(w), Angle(h))); l.erodeBy(Angle(w)); }
  put(o + 8, l, a); put(o + 12, x); put(o + 16, c); }
extern "C" void h_dilr(double const *v, double r, long op, double *o) { Box x = bx(v); Box c(x);
  if (op == 0) { put(o, c.dilateBy(Angle(r))); put(o + 4, x.dilatedBy(Angle(r))); }
  else { put(o, c.erodeBy(Angle(r))); put(o + 4, x.erodedBy(Angle(r))); }
  put(o + 12, x); put(o + 16, c); }
extern "C" void h_konst(double *o, long *f) { put(o, Box()); put(o + 4, Box::empty()); put(o + 8, Box::full()); f[0] = Box::full().isFull(); f[1] = Box().isEmpty(); f[2] = Box::full().isEmpty(); f[3] = Box().isFull(); }
extern "C" void h_ptctor(double const *v, double const *w, double *o) { put(o, Box(ll(v))); put(o + 4, Box(ll(v), ll(w))); L a(ll(v).getLon()); a = L(ll(v).getLon(), ll(w).getLon()); put(o + 8, a, A(ll(v).getLat(), ll(w).getLat())); }
extern "C" void h_width(double const *v, double *o) { Box x = bx(v); o[0] = x.getWidth().asRadians(); o[1] = x.getLon().getSize().asRadians(); o[2] = x.getHeight().asRadians(); o[3] = x.getLat().getSize().asRadians(); }
// 3-d
static Interval1d I(double const *v, int i) { return Interval1d(v[2 * i], v[2 * i + 1]); }
static Box3d b3(double const *v) { return Box3d(I(v, 0), I(v, 1), I(v, 2)); }
static Vector3d vec(double const *v) { return Vector3d(v[0], v[2], v[4]); }
static void put(double *o, Interval1d const &x, Interval1d const &y, Interval1d const &z) { o[0] = x.getA(); o[1] = x.getB(); o[2] = y.getA(); o[3] = y.getB(); o[4] = z.getA(); o[5] = z.getB(); }
static void put(double *o, Box3d const &b) { put(o, b.x(), b.y(), b.z()); }
extern "C" void h_pred_3(double const *v, double const *w, long *o) { Box3d const x = b3(v), y = b3(w);
  o[0] = x.contains(y); o[1] = x.isDisjointFrom(y); o[2] = x.intersects(y); o[3] = x.isWithin(y); o[4] = R(x.relate(y)); o[5] = (x == y); o[6] = (x != y);
  o[7] = x.isEmpty(); o[8] = x.isFull(); }
extern "C" void h_pt_3(double const *v, double const *w, long *o) { Box3d const x = b3(v); Vector3d const y = vec(w);
  o[0] = x.contains(y); o[1] = x.isDisjointFrom(y); o[2] = x.intersects(y); o[3] = x.isWithin(y); o[4] = R(x.relate(y)); o[5] = (x == y); o[6] = (x != y);
  o[7] = x.contains(w[0], w[2], w[4]); o[8] = x.isEmpty(); }
extern "C" void h_mod_3(double const *v, double const *w, long op, double *o) { Box3d x = b3(v), y = b3(w); Box3d c(x); Interval1d e[3] = {x.x(), x.y(), x.z()}; Vector3d p = vec(w);
  switch (op) {
    case 0: put(o, c.clipTo(y)); put(o + 6, x.clippedTo(y)); e[0].clipTo(y.x()); e[1].clipTo(y.y()); e[2].clipTo(y.z()); break;
    case 1: put(o, c.expandTo(y)); put(o + 6, x.expandedTo(y)); e[0].expandTo(y.x()); e[1].expandTo(y.y()); e[2].expandTo(y.z()); break;
    case 2: put(o, c.clipTo(p)); put(o + 6, x.clippedTo(p)); e[0].clipTo(p.x()); e[1].clipTo(p.y()); e[2].clipTo(p.z()); break;
    case 3: put(o, c.expandTo(p)); put(o + 6, x.expandedTo(p)); e[0].expandTo(p.x()); e[1].expandTo(p.y()); e[2].expandTo(p.z()); break;
    case 4: put(o, c.dilateBy(w[0], w[2], w[4])); put(o + 6, x.dilatedBy(w[0], w[2], w[4])); e[0].dilateBy(w[0]); e[1].dilateBy(w[2]); e[2].dilateBy(w[4]); break;
    case 5: put(o, c.erodeBy(w[0], w[2], w[4])); put(o + 6, x.erodedBy(w[0], w[2], w[4])); e[0].erodeBy(w[0]); e[1].erodeBy(w[2]); e[2].erodeBy(w[4]); break;
    case 6: put(o, c.dilateBy(w[0])); put(o + 6, x.dilatedBy(w[0])); e[0].dilateBy(w[0]); e[1].dilateBy(w[0]); e[2].dilateBy(w[0]); break;
    case 7: put(o, c.erodeBy(w[0])); put(o + 6, x.erodedBy(w[0])); e[0].erodeBy(w[0]); e[1].erodeBy(w[0]); e[2].erodeBy(w[0]); break;
  }
  put(o + 12, e[0], e[1], e[2]); put(o + 18, x); put(o + 24, c); }
extern "C" void h_ctor_3(double const *v, double const *w, double *o) { put(o, b3(v)); put(o + 6, Box3d(vec(v))); put(o + 12, Box3d(vec(v), vec(w))); put(o + 18, Box3d(vec(v), w[0], w[2], w[4]));
  Interval1d e[3] = {Interval1d(v[0]), Interval1d(v[2]), Interval1d(v[4])}; e[0].dilateBy(w[0]); e[1].dilateBy(w[2]); e[2].dilateBy(w[4]); put(o + 24, e[0], e[1], e[2]);
  put(o + 30, Interval1d(v[0], w[0]), Interval1d(v[2], w[2]), Interval1d(v[4], w[4])); }
extern "C" void h_konst_3(double *o, long *f) { put(o, Box3d()); put(o + 6, Box3d::empty()); put(o + 12, Box3d::full()); put(o + 18, Box3d::aroundUnitSphere());
  f[0] = Box3d().isEmpty(); f[1] = Box3d::full().isFull(); f[2] = Box3d::full().isEmpty(); f[3] = Box3d().isFull(); }
'''
OPTS = {'consts': (Fraction(0), T, HF, -HF), 'poly': True}
PNAME = ['contains', 'isDisjointFrom', 'intersects', 'isWithin', 'relate', 'operator==', 'operator!=', 'isEmpty', 'isFull']


def lat_types(n, out=True, nan=True):
    """per latitude: None, 'below', -pi/2, interior rank, pi/2, 'above'"""
    kinds = ['m', 'i', 'p'] + (['b', 'a'] if out else []) + (['n'] if nan else [])
    for ks in itertools.product(kinds, repeat=n):
        live = [i for i in range(n) if ks[i] == 'i']
        for w in (weak_orders(len(live)) if live else [()]):
            r = [{'n': None, 'm': -HF, 'p': HF, 'b': -HF - 1, 'a': HF + 1, 'i': 0}[k] for k in ks]
            for i, x in zip(live, w):
                r[i] = -HF + 2 * HF * x / (n + 1)
            yield tuple(r)


def lv(name, r):
    if r is None:
        return NAN
    if r == 0:
        return 0.0
    if r == T:
        return TWO_PI
    return sym(name, 0, T, rank=r)


def av(name, r):
    if r is None:
        return NAN
    if r == HF:
        return H
    if r == -HF:
        return -H
    if r < -HF:
        return sym(name, -HF - 2, -HF, rank=r)
    if r > HF:
        return sym(name, HF, HF + 2, rank=r)
    return sym(name, -HF, HF, rank=r)


def clampset(x):
    """the latitudes denoted, as a rank interval or None"""
    a, b = x
    if a is None or b is None or not a <= b:
        return None
    a, b = max(a, -HF), min(b, HF)
    return (a, b) if a <= b else None


def lonset(x, pts):
    return pset(x, pts)


def latpts(*xs):
    s = sorted({r for x in xs for r in x if r is not None} | {-HF, HF})
    out = list(s) + [(p + q) / 2 for p, q in zip(s, s[1:])]
    return out


def latset(x, pts):
    c = clampset(x)
    return frozenset() if c is None else frozenset(p for p in pts if c[0] <= p <= c[1])


def rk(v):
    return rank_of(v)


def buf(m, vals):
    p = outbuf(m, max(len(vals), 1))
    for i, x in enumerate(vals):
        m.store(Ptr(p.obj, 8 * i), x, ['d'], 8)
    return p


def eqv(m, a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
        return False
    if isinstance(a, float) and a in (INF, -INF) or isinstance(b, float) and b in (INF, -INF):
        return False
    d = P(a).add(P(b), -1)
    return m.signs(d) == {0}


def isnan(v):
    return isinstance(v, float) and v != v


def emptylin(m, a, b):
    """is [a, b] the empty linear interval on this path (None: undecided)"""
    if isnan(a) or isnan(b):
        return True
    if any(isinstance(v, float) and v in (INF, -INF) for v in (a, b)):
        return None
    s = m.signs(P(a).add(P(b), -1))
    return True if s <= {1} else False if s <= {-1, 0} else None


def run(chk):
    prog = Program(build.build_ir(HARNESS, 'C03', passes='inline'))
    stubs = {'fmod': fmod_stub}

    def L(op, cls='Box'):
        return loc_of(prog, r'sphgeom::%s::%s\(' % (cls, op))

    lonrep = [((T / 5, T / 3), (T / 4, T / 2)), ((T / 2, T / 5), (T / 3, T * 2 / 3)), ((T / 5, T / 2), (T / 3, T / 4)), ((Fraction(0), T), (T / 4, T / 2)),
              ((T / 4, T / 2), (Fraction(0), T)), ((None, None), (T / 4, T / 2)), ((T / 4, T / 2), (None, T / 2)), ((T / 4, T / 3), (T / 2, T * 2 / 3)),
              ((T / 4, T / 3), (T / 4, T / 3)), ((T * 3 / 4, T / 3), (T / 2, T / 4)), ((T / 4, T / 4), (T / 4, T / 2)), ((Fraction(0), T), (Fraction(0), T))]
    q = HF / 4
    latrep = [((-q, q), (Fraction(1, 9), 2 * q)), ((-2 * q, 2 * q), (-q, q)), ((-q, q), (-2 * q, 2 * q)), ((-HF, HF), (-q, q)), ((-q, q), (-HF, HF)),
              ((-HF, HF), (-HF, HF)), ((-HF - 1, q), (-q, HF + 1)), ((q, -q), (-q, q)), ((-q, q), (None, q)), ((-2 * q, -q), (q, 2 * q)), ((q, q), (-q, q)),
              ((-HF - 1, HF + 1), (-HF - 1, -HF)), ((-q, q), (-q, q))]
    # latitudes: the full type space over 4 end points is large; out-of-range kinds only with representatives
    lat4 = [((t[0], t[1]), (t[2], t[3])) for t in lat_types(4, out=False)]
    lon4 = [((t[0], t[1]), (t[2], t[3])) for t in cyc_types(4)]
    items = []
    for lt in lat4:
        for i, ln in enumerate(lonrep):
            if chk.thorough or i in (0, 3, 5, 9) or not any(x is None for y in lt for x in y) and i in (1, 7):
                items.append(('bb', ln, lt))
    for i, ln in enumerate(lon4):
        for j, lt in enumerate(latrep):
            if chk.thorough or (i + j) % 5 == 0 or j in (0, 9):
                items.append(('bb', ln, lt))
    items += [('bb', ln, lt) for ln in lonrep for lt in latrep]
    for t in lat_types(3, out=False, nan=False):
        for ln in cyc_types(3, nan=False) if chk.thorough else list(cyc_types(3, nan=False))[::3]:
            items.append(('pt', ln, t))
    for t in lat_types(2):
        for ln in cyc_types(2):
            items.append(('ctor', ln, t))
    for ln in cyc_types(2):
        for t in lat_types(2, out=False):
            items.append(('dil', ln, t))
            if ln in ((T / 3, T * 2 / 3), (T * 2 / 3, T / 3), (Fraction(0), T), (None, None)) or t in ((-HF, HF), (-HF, 0)):
                items.append(('dilr', ln, t))
    items.append(('konst',))
    # 3-d boxes
    r3 = [((1, 2), (3, 4)), ((1, 3), (2, 4)), ((1, 4), (2, 3)), ((2, 3), (1, 4)), ((1, 2), (1, 2)), ((2, 1), (3, 4)), ((1, 2), (None, 3)), ((1, 2), (2, 3)),
          ((1, 1), (1, 2)), ((2, 1), (None, 1))]
    t3 = list(itertools.product(range(len(r3)), repeat=3))
    for a, b, c in t3:
        if chk.thorough or (a * 3 + b * 5 + c * 7) % 3 == 0 or a == b or b == c:
            items.append(('b3', (r3[a], r3[b], r3[c])))
    ot = [((t[0], t[1]), (t[2], t[3])) for t in order_types(4)]
    for i, x in enumerate(ot):
        for k in range(3):
            if chk.thorough or i % 3 == k:
                y = [r3[1], r3[2], r3[1]]
                y[k] = x
                items.append(('b3', tuple(y)))
    for k in range(27):
        items.append(('d3', (k % 3, k // 3 % 3, k // 9)))
    items.append(('konst3',))
    items.append(('full3',))

    def runs(c, entry, go):
        cov = set()
        res = list(explore(prog, go, stubs=stubs, opts=dict(OPTS, cov=cov)))
        c.partitions += len(res)
        src_of(prog, c, cov)
        for r in res:
            if r.alarm is not None or r.exc is not None:
                c.fail('no-fault', entry + ':fault', (getattr(r.alarm, 'where', None) or [entry])[0], '%s: %s' % (entry, r.alarm or r.exc))
            else:
                yield r

    def boxvals(ln, lt, k):
        return [lv('lon%d' % (2 * k), ln[0]), lv('lon%d' % (2 * k + 1), ln[1]), av('lat%d' % (2 * k), lt[0]), av('lat%d' % (2 * k + 1), lt[1])]

    def shared(ln, lt):
        # values for two boxes with one set of atoms (coinciding ranks are equal values)
        lo = [ln[0][0], ln[0][1], ln[1][0], ln[1][1]]
        la = [lt[0][0], lt[0][1], lt[1][0], lt[1][1]]
        lo = [lv('lon%d' % i, r) for i, r in enumerate(lo)]
        la = [av('lat%d' % i, r) for i, r in enumerate(la)]
        return [lo[0], lo[1], la[0], la[1]], [lo[2], lo[3], la[2], la[3]]

    def normalised(m, c, l4, key, where, what):
        """both components empty or neither; latitudes in range"""
        le = isnan(l4[0]) or isnan(l4[1])
        ae = emptylin(m, l4[2], l4[3])
        c.expect(ae is not None and le == ae, 'both-components-empty-or-neither', key, where, lambda: '%s: longitude %s, latitude %s' % (what(), l4[:2], l4[2:]))
        if ae is False:
            c.expect(m.signs(P(l4[2]).add(P(HF))) <= {0, 1} and m.signs(P(l4[3]).add(P(HF), -1)) <= {0, -1}, 'latitudes-in-range', key + ':range', where,
                     lambda: '%s: latitude %s' % (what(), l4[2:]))

    def show(*a):
        return ' '.join(str([None if x is None else round(float(x), 3) for x in y]) for y in a)

    def one(c, it):
        globals_ = it[0]
        if it[0] == 'bb':
            _, ln, lt = it
            v, w = shared(ln, lt)
            lp, ap = points(*ln), latpts(*lt)
            sets = []
            for i in (0, 1):
                s, t = lonset(ln[i], lp), latset(lt[i], ap)
                sets.append((s, t) if s and t else (frozenset(), frozenset()))
            (X, A), (Y, B) = sets
            e1, e2 = not X, not Y
            con = e2 or (X >= Y and A >= B)
            wi = e1 or (X <= Y and A <= B)
            inter = bool(X & Y) and bool(A & B)
            full = ln[0] == (0, T) and clampset(lt[0]) == (-HF, HF)
            eq = X == Y and A == B
            want = [con, not inter, inter, wi, con + 2 * (not inter) + 4 * wi, eq, not eq, e1, full]

            def go(m):
                o = outbuf(m, 9)
                m.call('h_pred', [buf(m, v), buf(m, w), o])
                return [geti(m, o, i) for i in range(9)]
            for r in runs(c, 'Box:pred', go):
                for i in range(9):
                    c.expect(int(r.value[i]) == int(want[i]), 'box-set-predicate', 'Box:' + PNAME[i], L(PNAME[i]),
                             lambda: '%s is %s; sets require %s (lon %s lat %s)' % (PNAME[i], r.value[i], int(want[i]), show(*ln), show(*lt)))
            for op in (0, 1):
                nm = ['clipTo', 'expandTo'][op]

                def go(m):
                    o = outbuf(m, 24)
                    m.call('h_mod', [buf(m, v), buf(m, w), op, o])
                    return [[getd(m, o, 4 * k + i) for i in range(4)] for k in range(6)]
                for r in runs(c, 'Box:' + nm, go):
                    res, cp, exp, orig, obj, arg = r.value
                    what = lambda: '%s, lon %s lat %s' % (nm, show(*ln), show(*lt))
                    key = 'Box:' + nm
                    normalised(r.m, c, res, key, L(nm), what)
                    ee = isnan(exp[0]) or isnan(exp[1]) or emptylin(r.m, exp[2], exp[3])
                    re = isnan(res[0]) or isnan(res[1])
                    c.expect(re == bool(ee) and (re or all(eqv(r.m, a, b) for a, b in zip(res, exp))), 'box-is-component-product', key, L(nm),
                             lambda: '%s: %s, components give %s' % (what(), res, exp))
                    c.expect(all(eqv(r.m, a, b) for a, b in zip(res, cp)), 'copying-variant-agrees', key + ':copy', L(nm[:-2] + ('pedTo' if op == 0 else 'edTo')), what)
                    c.expect(all(eqv(r.m, a, b) for a, b in zip(res, obj)), 'returns-self', key + ':self', L(nm), what)
        elif it[0] == 'pt':
            _, ln, lt = it
            v = [lv('lon0', ln[0]), lv('lon1', ln[1]), av('lat0', lt[0]), av('lat1', lt[1])]
            w = [lv('lon2', ln[2]), av('lat2', lt[2])]
            lp, ap = points(ln), latpts(lt)
            X, A = lonset(ln[:2], lp), latset(lt[:2], ap)
            if not X or not A:
                X = A = frozenset()
            Y, B = frozenset({ln[2]}), frozenset({lt[2]})
            con = X >= Y and A >= B
            wi = not X or (X <= Y and A <= B)
            eq = X == Y and A == B
            want = [con, not con, con, wi, con + 2 * (not con) + 4 * wi, eq, not eq, not X, ln[:2] == (0, T) and clampset(lt[:2]) == (-HF, HF)]

            def go(m):
                o = outbuf(m, 9)
                m.call('h_pt', [buf(m, v), buf(m, w), o])
                return [geti(m, o, i) for i in range(9)]
            for r in runs(c, 'Box:pt', go):
                for i in range(9):
                    c.expect(int(r.value[i]) == int(want[i]), 'box-point-predicate', 'Box:%s(point)' % PNAME[i], L(PNAME[i]),
                             lambda: '%s(point) is %s; sets require %s (lon %s lat %s)' % (PNAME[i], r.value[i], int(want[i]), show(ln), show(lt)))
            for op in (2, 3):
                nm = ['clipTo', 'expandTo'][op - 2]

                def go(m):
                    o = outbuf(m, 24)
                    m.call('h_mod', [buf(m, v), buf(m, w + [0.0, 0.0]), op, o])
                    return [[getd(m, o, 4 * k + i) for i in range(4)] for k in range(5)]
                for r in runs(c, 'Box:%s(point)' % nm, go):
                    res, cp, exp, orig, obj = r.value
                    what = lambda: '%s(point), lon %s lat %s' % (nm, show(ln), show(lt))
                    key = 'Box:%s(point)' % nm
                    normalised(r.m, c, res, key, L(nm), what)
                    re = isnan(res[0]) or isnan(res[1])
                    ee = isnan(exp[0]) or isnan(exp[1]) or emptylin(r.m, exp[2], exp[3])
                    c.expect(re == bool(ee) and (re or all(eqv(r.m, a, b) for a, b in zip(res, exp))), 'box-is-component-product', key, L(nm),
                             lambda: '%s: %s, components give %s' % (what(), res, exp))
                    c.expect(all(eqv(r.m, a, b) for a, b in zip(res, cp)), 'copying-variant-agrees', key + ':copy', L(nm), what)
        elif it[0] == 'ctor':
            _, ln, lt = it
            v = boxvals(ln, lt, 0)
            lp, ap = points(ln), latpts(lt)
            X, A = lonset(ln, lp), latset(lt, ap)

            def go(m):
                o, f = outbuf(m, 4), outbuf(m, 2)
                m.call('h_ctor', [buf(m, v), o, f])
                return [getd(m, o, i) for i in range(4)], [geti(m, f, i) for i in range(2)]
            what = lambda: 'lon %s lat %s' % (show(ln), show(lt))
            for r in runs(c, 'Box:ctor', go):
                l4, f = r.value
                normalised(r.m, c, l4, 'Box:ctor', L('Box'), what)
                e = not X or not A
                c.expect(bool(f[0]) == e and (isnan(l4[0]) or isnan(l4[1])) == e, 'empty-iff-a-component-is', 'Box:isEmpty', L('isEmpty'), what)
                if not e:
                    cl = clampset(lt)
                    c.expect(eqv(r.m, l4[0], v[0]) and eqv(r.m, l4[1], v[1]) and rk(l4[2]) == cl[0] and rk(l4[3]) == cl[1], 'constructor-keeps-the-set', 'Box:ctor:set', L('Box'),
                             lambda: '%s: stored %s' % (what(), l4))
                c.expect(bool(f[1]) == (ln == (0, T) and clampset(lt) == (-HF, HF)), 'full-iff-everything', 'Box:isFull', L('isFull'), what)

            def go(m):
                o = outbuf(m, 4)
                m.call('h_width', [buf(m, v), o])
                return [getd(m, o, i) for i in range(4)]
            for r in runs(c, 'Box:size', go):
                a = r.value
                c.expect(eqv(r.m, a[0], a[1]) and eqv(r.m, a[2], a[3]), 'size-of-components', 'Box:getWidth', L('getWidth'), what)
            if None not in ln and None not in lt and all(-HF <= x <= HF for x in lt):
                def go(m):
                    o = outbuf(m, 12)
                    m.call('h_ptctor', [buf(m, [v[0], v[2]]), buf(m, [v[1], v[3]]), o])
                    return [getd(m, o, i) for i in range(12)]
                for r in runs(c, 'Box:ptctor', go):
                    a = r.value
                    c.expect(eqv(r.m, a[0], v[0]) and eqv(r.m, a[1], v[0]) and eqv(r.m, a[2], v[2]) and eqv(r.m, a[3], v[2]), 'point-box', 'Box:ctor(point)', L('Box'), what)
                    if lt[0] <= lt[1]:
                        c.expect(all(eqv(r.m, a[4 + i], a[8 + i]) for i in range(4)), 'two-point-box', 'Box:ctor(points)', L('Box'), what)
                    else:
                        c.expect(all(isnan(a[4 + i]) for i in (0, 1)) and emptylin(r.m, a[6], a[7]), 'two-point-box', 'Box:ctor(points)', L('Box'), what)
        elif it[0] == 'dil':
            _, ln, lt = it
            v = boxvals(ln, lt, 0)
            for op in (0, 1):
                for hn in ('pos', 'neg', 'nan', 'zero'):
                    hv = {'pos': sym('h', 0, 4), 'neg': sym('h', -4, 0), 'nan': NAN, 'zero': 0.0}[hn]
                    for wn in ('pos', 'neg', 'zero'):
                        wv = {'pos': sym('w', 0, 4), 'neg': sym('w', -4, 0), 'zero': 0.0}[wn]
                        if (hn == 'nan' or hn == 'zero') and wn != 'pos':
                            continue

                        def go(m):
                            o = outbuf(m, 20)
                            m.call('h_dil', [buf(m, v), wv, hv, op, o])
                            return [[getd(m, o, 4 * k + i) for i in range(4)] for k in range(5)]
                        nm = ['dilateBy', 'erodeBy'][op]
                        what = lambda: '%s(%s, %s) of lon %s lat %s' % (nm, wn, hn, show(ln), show(lt))
                        for r in runs(c, 'Box:' + nm, go):
                            res, cp, exp, orig, obj = r.value
                            m = r.m
                            key = 'Box:%s(w,h)' % nm
                            normalised(m, c, res, key, L(nm), what)
                            c.expect(all(eqv(m, a, b) for a, b in zip(res, cp)) and all(eqv(m, a, b) for a, b in zip(res, obj)), 'copying-variant-agrees', key + ':copy', L(nm), what)
                            if isnan(orig[0]) or isnan(orig[1]):
                                c.expect(isnan(res[0]) or isnan(res[1]), 'empty-stays-empty', key + ':empty', L(nm), what)
                                continue
                            full = ln == (0, T) and clampset(lt) == (-HF, HF)
                            if full:
                                c.expect(all(eqv(m, a, b) for a, b in zip(res, orig)), 'full-stays-full', key + ':full', L(nm), what)
                                continue
                            # latitudes move out by h (in, for negative h), except ends at a pole stay, clamped to the poles
                            hh = P(0) if hn in ('nan', 'zero') else P(hv).scale(-1 if op else 1)
                            a0, b0 = P(orig[2]), P(orig[3])
                            a1 = a0 if lt[0] == -HF else a0.add(hh, -1)
                            b1 = b0 if lt[1] == HF else b0.add(hh)
                            if isnan(res[0]) or isnan(res[1]):
                                g = isnan(exp[0]) or isnan(exp[1]) or m.signs(a1.add(b1, -1)) <= {1} or m.signs(a1.add(P(HF), -1)) <= {1} or m.signs(b1.add(P(HF))) <= {-1}
                                c.expect(g, 'dilation-is-componentwise', key + ':lost', L(nm), lambda: '%s became empty: %s' % (what(), r.path(5)))
                                continue
                            okl = all(eqv(m, x, y) for x, y in zip(res[:2], exp[:2]))
                            lo, hi = P(res[2]), P(res[3])

                            def is_max(x, y, k):
                                return (m.signs(x.add(y, -1)) == {0} and m.signs(y.add(k, -1)) <= {0, 1}) or (m.signs(x.add(k, -1)) == {0} and m.signs(y.add(k, -1)) <= {0, -1})
                            oka = is_max(lo, a1, P(-HF)) and is_max(hi.neg(), b1.neg(), P(-HF))
                            c.expect(okl and oka, 'dilation-is-componentwise', key, L(nm), lambda: '%s: got %s, longitudes should be %s: %s' % (what(), res, exp[:2], r.path(5)))
        elif it[0] == 'dilr':
            _, ln, lt = it
            v = boxvals(ln, lt, 0)
            for op in (0, 1):
                for rn in ('pos', 'neg', 'nan', 'zero'):
                    rv = {'pos': sym('r', 0, 4), 'neg': sym('r', -4, 0), 'nan': NAN, 'zero': 0.0}[rn]

                    def go(m):
                        o = outbuf(m, 20)
                        m.call('h_dilr', [buf(m, v), rv, op, o])
                        return [[getd(m, o, 4 * k + i) for i in range(4)] for k in (0, 1, 3, 4)]
                    nm = ['dilateBy', 'erodeBy'][op]
                    what = lambda: '%s(%s) of lon %s lat %s' % (nm, rn, show(ln), show(lt))
                    for r in runs(c, 'Box:%s(r)' % nm, go):
                        res, cp, orig, obj = r.value
                        m = r.m
                        key = 'Box:%s(r)' % nm
                        normalised(m, c, res, key, L(nm), what)
                        c.expect(all(eqv(m, a, b) for a, b in zip(res, cp)) and all(eqv(m, a, b) for a, b in zip(res, obj)), 'copying-variant-agrees', key + ':copy', L(nm), what)
                        if isnan(orig[0]) or isnan(orig[1]):
                            c.expect(isnan(res[0]) or isnan(res[1]), 'empty-stays-empty', key + ':empty', L(nm), what)
                            continue
                        eff = {'pos': 1, 'neg': -1}.get(rn, 0) * (-1 if op else 1)
                        if isnan(res[0]) or isnan(res[1]):
                            c.fail('dilation-covers', key + ':lost', L(nm), '%s became empty' % what())
                            continue
                        # never shrinks; latitudes grow by the radius
                        R = P(rv) if eff and not op else P(rv).neg() if eff else P(0)
                        a1, b1 = (P(orig[2]).add(R, -1), P(orig[3]).add(R)) if eff > 0 else (P(orig[2]), P(orig[3]))
                        lo, hi = P(res[2]), P(res[3])
                        okk = (m.signs(lo.add(a1, -1)) <= {0, -1} or eqv(m, lo, -H)) and (m.signs(hi.add(b1, -1)) <= {0, 1} or eqv(m, hi, H))
                        c.expect(okk, 'dilation-covers', key + ':lat', L(nm), lambda: '%s: %s from %s: %s' % (what(), res, orig, r.path(5)))
        elif it[0] == 'konst':
            def go(m):
                o, f = outbuf(m, 12), outbuf(m, 4)
                m.call('h_konst', [o, f])
                return [getd(m, o, i) for i in range(12)], [geti(m, f, i) for i in range(4)]
            for r in runs(c, 'Box:const', go):
                v, f = r.value
                c.expect(all(isnan(x) for x in v[:2] + v[4:6]) and v[8:] == [0.0, TWO_PI, -H, H] and [int(x) & 1 for x in f] == [1, 1, 0, 0], 'named-boxes', 'Box:empty/full', L('full'), repr(r.value))
        elif it[0] == 'b3':
            do3(c, it[1])
        elif it[0] == 'd3':
            dil3(c, it[1])
        elif it[0] == 'full3':
            full3(c)
        else:
            def go(m):
                o, f = outbuf(m, 24), outbuf(m, 4)
                m.call('h_konst_3', [o, f])
                return [getd(m, o, i) for i in range(24)], [geti(m, f, i) for i in range(4)]
            for r in runs(c, 'Box3d:const', go):
                v, f = r.value
                c.expect(all(isnan(x) for x in v[:12]) or all(emptylin(r.m, v[2 * i], v[2 * i + 1]) for i in range(6)), 'named-boxes', 'Box3d:empty', L('empty', 'Box3d'), repr(v[:12]))
                c.expect(v[12:18] == [-INF, INF] * 3 and v[18:] == [-1.0, 1.0] * 3 and [int(x) & 1 for x in f] == [1, 1, 0, 0], 'named-boxes', 'Box3d:full', L('full', 'Box3d'), repr(r.value))

    def full3(c):
        opts = [((-INF, INF), 2), ((-INF, 1.0), 1), ((0.0, INF), 1), ((0.0, 1.0), 1), ((NAN, INF), 0)]
        for ks in itertools.product(opts, repeat=3):
            v = [x for k in ks for x in k[0]]
            empty = any(k[1] == 0 for k in ks)
            full = all(k[1] == 2 for k in ks)

            def go(m):
                o = outbuf(m, 9)
                m.call('h_pred_3', [buf(m, v), buf(m, [0.0, 1.0] * 3), o])
                return [geti(m, o, i) for i in range(9)]
            for r in runs(c, 'Box3d:isFull', go):
                c.expect(bool(r.value[7]) == empty and bool(r.value[8]) == full and bool(r.value[0]) == (not empty and all(k[0][0] <= 0 and k[0][1] >= 1 for k in ks)),
                         'full-iff-everything', 'Box3d:isFull', L('isFull', 'Box3d'), lambda: '%s' % (v,))

    def vals3(rs):
        v, w = [], []
        for k, (x, y) in enumerate(rs):
            a = [fsym('%s%d' % ('xyz'[k], i), r) for i, r in enumerate(x + y)]
            v += a[:2]
            w += a[2:]
        return v, w

    def set3(rs, which):
        out = []
        for r in rs:
            a, b = r[which]
            pts = sorted({q for z in r for q in z if q is not None})
            pts = pts + [Fraction(p + q, 2) for p, q in zip(pts, pts[1:])]
            out.append(frozenset() if a is None or b is None else frozenset(p for p in pts if a <= p <= b))
        return out if all(out) else [frozenset()] * 3

    def do3(c, rs):
        v, w = vals3(rs)
        X, Y = set3(rs, 0), set3(rs, 1)
        e1, e2 = not X[0], not Y[0]
        con = e2 or all(a >= b for a, b in zip(X, Y))
        wi = e1 or all(a <= b for a, b in zip(X, Y))
        inter = all(a & b for a, b in zip(X, Y))
        eq = X == Y
        want = [con, not inter, inter, wi, con + 2 * (not inter) + 4 * wi, eq, not eq, e1, False]
        what = lambda: '%s' % (rs,)

        def go(m):
            o = outbuf(m, 9)
            m.call('h_pred_3', [buf(m, v), buf(m, w), o])
            return [geti(m, o, i) for i in range(9)]
        for r in runs(c, 'Box3d:pred', go):
            for i in range(9):
                c.expect(int(r.value[i]) == int(want[i]), 'box3d-set-predicate', 'Box3d:' + PNAME[i], L(PNAME[i], 'Box3d'),
                         lambda: '%s is %s; sets require %s for %s' % (PNAME[i], r.value[i], int(want[i]), what()))
        # point argument: first ends of the second operand
        PT = [((r[0]), (r[1][0], r[1][0])) for r in rs]
        X, Y = set3(PT, 0), set3(PT, 1)
        e1, e2 = not X[0], not Y[0]
        con = e2 or all(a >= b for a, b in zip(X, Y))
        wi = e1 or all(a <= b for a, b in zip(X, Y))
        inter = all(a & b for a, b in zip(X, Y))
        eq = X == Y

        def go(m):
            o = outbuf(m, 9)
            m.call('h_pt_3', [buf(m, v), buf(m, w), o])
            return [geti(m, o, i) for i in range(9)]
        if not e2:
            want = [con, not inter, inter, wi, con + 2 * (not inter) + 4 * wi, eq, not eq, con, e1]
            for r in runs(c, 'Box3d:pt', go):
                for i in range(9):
                    n = (PNAME[:7] + ['contains', 'isEmpty'])[i]
                    c.expect(int(r.value[i]) == int(want[i]), 'box3d-point-predicate', 'Box3d:%s(point)' % n, L(n, 'Box3d'),
                             lambda: '%s(point) is %s; sets require %s for %s' % (n, r.value[i], int(want[i]), what()))
        for op in range(4):
            nm = ['clipTo', 'expandTo'][op % 2]

            def go(m):
                o = outbuf(m, 30)
                m.call('h_mod_3', [buf(m, v), buf(m, w), op, o])
                return [[getd(m, o, 6 * k + i) for i in range(6)] for k in range(5)]
            for r in runs(c, 'Box3d:' + nm, go):
                judge3(c, r, 'Box3d:%s%s' % (nm, '(point)' if op > 1 else ''), nm, what, e2 and op == 3)

        def go(m):
            o = outbuf(m, 36)
            m.call('h_ctor_3', [buf(m, v), buf(m, [0.0] * 6), o])
            return [[getd(m, o, 6 * k + i) for i in range(6)] for k in range(6)]
        for r in runs(c, 'Box3d:ctor', go):
            b = r.value[0]
            X = set3(rs, 0)
            e = [emptylin(r.m, b[2 * i], b[2 * i + 1]) for i in range(3)]
            c.expect(e == [not X[0]] * 3, 'all-components-empty-or-none', 'Box3d:ctor', L('Box3d', 'Box3d'), lambda: '%s: %s' % (what(), b))
            if X[0]:
                c.expect(all(eqv(r.m, p, q) for p, q in zip(b, v)), 'constructor-keeps-the-set', 'Box3d:ctor:set', L('Box3d', 'Box3d'), lambda: '%s: %s' % (what(), b))
            nanpt = any(z[0][0] is None for z in rs)
            pb = r.value[1]
            c.expect(all(emptylin(r.m, pb[2 * i], pb[2 * i + 1]) == nanpt for i in range(3)) and (nanpt or all(eqv(r.m, pb[2 * i + j], v[2 * i]) for i in range(3) for j in (0, 1))),
                     'point-box', 'Box3d:ctor(point)', L('Box3d', 'Box3d'), lambda: '%s: %s' % (what(), pb))

        def go(m):
            o = outbuf(m, 36)
            m.call('h_ctor_3', [buf(m, v), buf(m, w), o])
            return [[getd(m, o, 6 * k + i) for i in range(6)] for k in range(6)]
        for r in runs(c, 'Box3d:ctor', go):
            b, exp = r.value[2], r.value[5]
            e = any(emptylin(r.m, exp[2 * i], exp[2 * i + 1]) for i in range(3))
            c.expect([emptylin(r.m, b[2 * i], b[2 * i + 1]) for i in range(3)] == [e] * 3 and (e or all(eqv(r.m, p, q) for p, q in zip(b, exp))), 'two-point-box', 'Box3d:ctor(points)',
                     L('Box3d', 'Box3d'), lambda: '%s: %s' % (what(), b))

    def judge3(c, r, key, nm, what, nanpoint=False):
        res, cp, exp, orig, obj = r.value
        m = r.m
        ex = [emptylin(m, exp[2 * i], exp[2 * i + 1]) for i in range(3)]
        re = [emptylin(m, res[2 * i], res[2 * i + 1]) for i in range(3)]
        c.expect(re in ([True] * 3, [False] * 3), 'all-components-empty-or-none', key, L(nm, 'Box3d'), lambda: '%s: %s' % (what(), res))
        if nanpoint:
            # expanding to a point that is not one: at least nothing is lost
            return
        e = any(ex)
        c.expect(re[0] == e and (e or all(eqv(m, p, q) for p, q in zip(res, exp))), 'box-is-component-product', key + ':value', L(nm, 'Box3d'),
                 lambda: '%s: %s, components give %s' % (what(), res, exp))
        c.expect(all(eqv(m, p, q) for p, q in zip(res, cp)) and all(eqv(m, p, q) for p, q in zip(res, obj)), 'copying-variant-agrees', key + ':copy', L(nm, 'Box3d'), what)

    def dil3(c, ks):
        w = []
        for i, k in enumerate(ks):
            w += [[sym('w%d' % i, 0, 4), sym('w%d' % i, -4, 0), NAN][k], 0.0]
        for v in ([fsym('x0', 1), fsym('x1', 2), fsym('y0', 1), fsym('y1', 2), fsym('z0', 1), fsym('z1', 1)], [NAN, 1.0] * 3):
            for op in (4, 5, 6, 7):
                nm = ['dilateBy', 'erodeBy'][op % 2]

                def go(m):
                    o = outbuf(m, 30)
                    m.call('h_mod_3', [buf(m, v), buf(m, w), op, o])
                    return [[getd(m, o, 6 * k + i) for i in range(6)] for k in range(5)]
                for r in runs(c, 'Box3d:' + nm, go):
                    judge3(c, r, 'Box3d:%s' % nm, nm, lambda: '%s %s' % (nm, w))
    parallel(chk, items, one)
    chk.info['items'] = len(items)
