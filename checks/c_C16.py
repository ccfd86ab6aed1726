"""C16: bounding circles, boxes and 3-D boxes enclose the region."""
from common import *
from framework import parallel
from absint import Infeasible, minmax, mathfn

EXPLANATION = (
    'Abstract interpretation of every getBounding* member in an exact polynomial domain: angles, coordinates and radii are unknowns, '
    'trigonometric functions uninterpreted atoms with their defining relations, minima and maxima atoms with their defining '
    'inequalities (so they do not split paths). On every path the returned bound must be entailed, by linear arithmetic over the '
    'monomials, to lie outside every extreme point of the region that the path has not excluded: vertices, edge extrema found from '
    'the tangent directions at the edge ends, axis points inside, latitude and longitude ends, the rim of a circle. Rounding '
    'allowances must be positive.')
ASSUMPTIONS = ['exact reals; that the allowances exceed the accumulated rounding error is not decided',
               'polygons of 3 vertices (4 for the bounding circle); away from one edge and axis at a time, the remaining edges take three fixed sign patterns',
               'interval and box operations (C01-C03), orientation predicates (C11)']

HARNESS = OPAQUE_REGION + r'''
#include "lsst/sphgeom/orientation.h"
static Region *mk(long kind, double const *v) {
  switch (kind) {
    case 0: return new Box(NormalizedAngleInterval::fromRadians(v[0], v[1]), AngleInterval::fromRadians(v[2], v[3]));
    case 1: return new Circle(U(v), Angle(v[3]));
    case 2: return new ConvexPolygon(U(v), U(v + 3), U(v + 6));
    case 3: return new ConvexPolygon(U(v), U(v + 3), U(v + 6), U(v + 9));
    case 4: return new Ellipse(U(v), Angle(v[3]), Angle(v[4]), Angle(v[5]));
    case 5: return new Ellipse(U(v), U(v + 3), Angle(v[6]));
    case 6: return new Box();
    case 7: return new Circle();
    case 8: return new Ellipse();
    case 9: return new Box(Box::full());
    case 10: return new Circle(Circle::full());
    case 11: return new Ellipse(Ellipse::full());
    case 12: return new Circle(U(v));
  }
  return nullptr;
}
extern "C" Region *h_mk(long kind, double const *v) { return mk(kind, v); }
extern "C" void h_circle(Region const *r, double *o) { Circle c = r->getBoundingCircle();
  o[0] = c.getCenter().x(); o[1] = c.getCenter().y(); o[2] = c.getCenter().z(); o[3] = c.getSquaredChordLength(); o[4] = c.getOpeningAngle().asRadians(); }
extern "C" void h_box(Region const *r, double *o) { Box b = r->getBoundingBox();
  o[0] = b.getLon().getA().asRadians(); o[1] = b.getLon().getB().asRadians(); o[2] = b.getLat().getA().asRadians(); o[3] = b.getLat().getB().asRadians(); }
extern "C" void h_box3d(Region const *r, double *o) { Box3d b = r->getBoundingBox3d();
  for (int i = 0; i < 3; ++i) { o[2 * i] = b(i).getA(); o[2 * i + 1] = b(i).getB(); } }
extern "C" double h_half(double r, double lat) { return Box::halfWidthForCircle(Angle(r), Angle(lat)).asRadians(); }
extern "C" void h_dil(Region *b, double r, double *o) { Box &x = static_cast<Box *>(b)->dilateBy(Angle(r));
  o[0] = x.getLon().getA().asRadians(); o[1] = x.getLon().getB().asRadians(); o[2] = x.getLat().getA().asRadians(); o[3] = x.getLat().getB().asRadians(); }
extern "C" void h_abc(double const *v, double *o) { Circle c(U(v), Angle(v[3])); o[0] = c.getSquaredChordLength(); o[1] = c.getOpeningAngle().asRadians();
  o[2] = c.isFull(); o[3] = c.isEmpty(); }
extern "C" void h_abl(double const *v, double *o) { Circle c(U(v), v[3]); o[0] = c.getSquaredChordLength(); o[1] = c.getOpeningAngle().asRadians(); o[2] = c.isFull(); o[3] = c.isEmpty(); }
'''
F = Fraction
PI = 3.141592653589793
FPI = F(PI)
TINY = F(1, 10**17)
XYZ = 'xyz'


def buf(m, vals):
    p = outbuf(m, max(len(vals), 1))
    for i, x in enumerate(vals):
        m.store(Ptr(p.obj, 8 * i), x, ['d'], 8)
    return p


def v3(n):
    return [sym('%s.%s' % (n, c), F(-1), F(1)) for c in 'xyz']


def lds(m, p, n, off=0):
    return [m.load(Ptr(p.obj, p.off + off + 8 * i), ['d'], 8) for i in range(n)]


def sgn(m, p):
    try:
        return m.signs(P(p))
    except Infeasible:
        return set()


def sub(p, q):
    return P(p).add(P(q), -1)


def isnum(v):
    return not (isinstance(v, float) and v != v)


def split_const(p):
    """p = atom + constant, or None"""
    q = Poly({k: c for k, c in P(p).t.items() if k})
    a = q.single_atom()
    return None if a is None else (a, P(p).cval())


def ge(m, p, q):
    """p >= q entailed on this path"""
    if not isnum(p) or not isnum(q):
        return False
    if isinstance(p, float) and p in (INF, -INF):
        return p == INF
    return sgn(m, sub(p, q)) <= {0, 1}


def reach(m, p, q, cap=1):
    """p >= min(cap, q) entailed on this path"""
    return isnum(p) and ge(m, p, minmax(m, False, P(cap), P(q)))


def leaves(p, out=None):
    """the operands a minimum/maximum tree is made of"""
    out = [] if out is None else out
    p = P(p)
    for k in p.t:
        if len(k) == 1 and k[0][1] == 1 and k[0][0].kind in ('min', 'max') and abs(p.t[k]) == 1:
            rest = Poly({x: y for x, y in p.t.items() if x != k})
            for a in k[0][0].args:
                leaves(rest.add(a.scale(p.t[k])), out)
            return out
    out.append(p)
    return out


def atleast(m, p, q, cap=1):
    """p >= cap or p >= q, operand by operand of the outermost minimum (or negated maximum)"""
    p = P(p)
    for k, c in p.t.items():
        if len(k) == 1 and k[0][1] == 1 and k[0][0].kind == ('min' if c > 0 else 'max'):
            rest = Poly({x: y for x, y in p.t.items() if x != k})
            return all(atleast(m, rest.add(a.scale(c)), q, cap) for a in k[0][0].args)
    return ge(m, p, cap) or ge(m, p, q)


class Ctx:
    pass


def std_minmax(prog):
    st = {}
    for nm, mx in (('min', False), ('max', True)):
        def f(m, a, mx=mx):
            x, y = m.load(a[0], ['d'], 8), m.load(a[1], ['d'], 8)
            v = minmax(m, mx, x, y) if m.opts.get('minmax') else (y if m.fcmp('olt', x, y) == int(mx) else x)
            p = outbuf(m, 1)
            m.store(p, v, ['d'], 8)
            return p
        for n in symbols(prog, r'std::%s<(double|lsst::sphgeom::(Normalized)?Angle)>\(' % nm):
            if len(prog.funcs[n].args) == 2:
                st[n] = f

        def fl(m, a, mx=mx):
            n = a[1]
            v = m.load(a[0], ['d'], 8)
            for i in range(1, n):
                v = minmax(m, mx, v, m.load(Ptr(a[0].obj, a[0].off + 8 * i), ['d'], 8))
            return v
        for n in symbols(prog, r'std::%s<double>\(std::initializer_list' % nm):
            st[n] = fl
    return st


def run(chk):
    prog = Program(build.build_ir(HARNESS, 'C16'))
    X = Ctx()
    X.prog = prog
    X.mm = std_minmax(prog)
    X.scl = stub_map(prog, {r'Circle::squaredChordLengthFor\(': scl_stub, r'Circle::openingAngleFor\(': lambda m, a: m.fn('oa', a[0], lo=-1, hi=FPI)})
    jobs = [('conv',), ('half', 1), ('half', 0), ('half', -1), ('dilate',), ('circlebox',), ('self',), ('empties',)]
    jobs += [('circle3d', i) for i in range(3)]
    lons = [(0, 0), (0, 1), (0, 2), (0, 4), (0, 7), (1, 1), (1, 2), (1, 3), (1, 5), (1, 7), (2, 6), (3, 3), (3, 5), (5, 5), (5, 7), (6, 0), (6, 2), (7, 0), (7, 1), (7, 3), (5, 3), (5, 1), (4, 4), (3, 1), (2, 0), (9, 9), (1, -1), (3, -3), (7, -7)]
    lats = [(0, 1), (0, 2), (0, 3), (0, 4), (1, 1), (1, 2), (1, 3), (1, 4), (2, 3), (2, 4), (3, 3), (3, 4)]
    jobs += [('box3d', a, b) for a in lons for b in lats]
    jobs += [('boxcircle', a, b) for a in (0, 1, 2, 3) for b in lats]
    jobs += [('polycircle', k) for k in (2, 3)]
    jobs += [('polybox', e, v) for e in range(3) for v in range(3)] + [('polypole',)]
    jobs += [('poly3d', e, i, v) for e in range(3) for i in range(3) for v in range(3)] + [('polyaxis', i) for i in range(3)]
    jobs += [('ellipse', i) for i in range(8)]

    def one(c, it):
        globals()['do_' + it[0]](c, X, *it[1:])
    parallel(chk, jobs, one)
    for r, n in (('box3d-encloses', 500), ('circle-encloses', 60), ('box-encloses', 60)):
        chk.need(r, n)


def scl_stub(m, a):
    return m.fn('scl', a[0])


def ex(c, X, fn, stubs, key, loc, opts=None, maxpaths=20000):
    cov = set()
    n = 0
    for r in explore(X.prog, fn, stubs=dict(X.mm, **stubs), opts=dict({'poly': True, 'minmax': True}, **dict(opts or {}, cov=cov)), maxpaths=maxpaths):
        n += 1
        if r.alarm is not None or r.exc is not None:
            c.fail('no-fault', key + ':fault', (getattr(r.alarm, 'where', None) or [loc])[0], '%s: %s; path: %s' % (key, r.alarm or r.exc, r.path(8)))
        else:
            c.ok('no-fault')
            yield r
    c.partitions += n
    src_of(X.prog, c, cov)
    if n == 0:
        raise build.AnalysisError('no path of ' + key)


def bounding(kind, cls):
    return r'sphgeom::%s::getBounding%s\(\)' % (cls, kind)


def call_out(m, fn, args, n):
    o = outbuf(m, n)
    m.call(fn, args + [o])
    return [getd(m, o, i) for i in range(n)]


# ---- chord length and opening angle ---------------------------------------------
def do_conv(c, X):
    la = loc_of(X.prog, r'Circle::squaredChordLengthFor')
    lo = loc_of(X.prog, r'Circle::openingAngleFor')
    cen = v3('c')
    cases = [('neg', sym('t', F(-10), -TINY)), ('zero', 0.0), ('mid', sym('t', TINY, FPI - TINY)), ('pi', PI), ('big', sym('t', FPI + TINY, F(100)))]
    for nm, t in cases:
        for R in ex(c, X, lambda m: call_out(m, 'h_abc', [buf(m, cen + [t])], 4), {}, 'chord-for-angle', la):
            s, a, full, empty = R.value
            m = R.m
            if nm == 'neg':
                good = sgn(m, s) == {-1} and empty == 1.0 and full == 0.0
            elif nm in ('pi', 'big'):
                good = P(s) == P(4) and empty == 0.0 and full == 1.0
            else:
                h = m.fn('sin', P(t).scale(F(1, 2))) if nm == 'mid' else P(0)
                good = sub(s, h.mul(h).scale(4)).t == {} and empty == 0.0
            c.expect(good and P(a) == P(t), 'chord-angle-relation', 'scl:' + nm, la, lambda: 'angle %s: squared chord length %s, opening angle %s, full %s, empty %s' % (t, s, a, full, empty))
    cases = [('neg', sym('s', F(-10), -TINY)), ('zero', 0.0), ('mid', sym('s', TINY, F(4) - TINY)), ('four', 4.0), ('big', sym('s', F(4) + TINY, F(100)))]
    for nm, t in cases:
        for R in ex(c, X, lambda m: call_out(m, 'h_abl', [buf(m, cen + [t])], 4), {}, 'angle-for-chord', lo):
            s, a, full, empty = R.value
            m = R.m
            if nm == 'neg':
                good = sgn(m, a) == {-1} and empty == 1.0 and full == 0.0
            elif nm in ('four', 'big'):
                good = P(a) == P(PI) and full == 1.0 and empty == 0.0
            elif nm == 'zero':
                good = P(a) == P(0) and empty == 0.0
            else:
                r = mathfn(m, 'sqrt', P(t))
                good = sub(a, m.fn('asin', r.scale(F(1, 2))).scale(2)).t == {} and empty == 0.0
            c.expect(good and P(s) == P(t), 'chord-angle-relation', 'oa:' + nm, lo, lambda: 'squared chord length %s: opening angle %s, full %s, empty %s' % (t, a, full, empty))


# ---- circles --------------------------------------------------------------------
def do_half(c, X, side):
    l = loc_of(X.prog, r'Box::halfWidthForCircle')
    lat = 0.0 if side == 0 else sym('lat', TINY, F(PI / 2)) if side > 0 else sym('lat', F(-PI / 2), -TINY)
    al = P(lat) if side >= 0 else P(lat).neg()
    for nm, r in (('neg', sym('r', F(-5), F(0))), ('pos', sym('r', TINY, FPI)), ('huge', sym('r', FPI, F(100)))):
        def go(m):
            if nm == 'pos':
                m.learn(m.fn('sin', r), {0, 1})
            m.learn(P(mathfn(m, 'cos', P(lat))) if side else P(1), {0, 1})
            return m.call('h_half', [r, lat])
        for R in ex(c, X, go, {}, 'half-width', l):
            m, v = R.m, R.value
            if nm == 'neg':
                c.expect(isnum(v) and sgn(m, v) <= {0, 1}, 'half-width', 'half:neg', l, 'half width %s for r <= 0' % (v,))
                continue
            pole = sgn(m, al.add(r).add(P(-F(PI / 2))))
            if not (pole <= {-1}):
                c.expect(ge(m, v, PI), 'half-width', 'half:pole', l, lambda: 'the circle may contain a pole, half width %s; %s' % (v, R.path(6)))
                continue
            # asin(sin r / cos lat), with the argument known to be at most 1
            s = m.fn('sin', r)
            ok = ge(m, v, PI / 2)
            x = split_const(v) if isinstance(v, Poly) else None
            if not ok and x and x[0].kind == 'asin' and x[1] >= 0:
                q = x[0].args[0]
                cl = P(mathfn(m, 'cos', P(lat))) if side else P(1)
                d = sub(q.mul(cl), s)
                ok = not d.t and sgn(m, q.add(P(-1))) <= {-1, 0}
            c.expect(ok, 'half-width', 'half:asin', l, lambda: 'half width %s, which is not asin(sin r / cos lat) with a valid argument; %s' % (v, R.path(6)))


def half_stub(X, log):
    def st(m, a):
        log.append((a[-2], a[-1]))
        v = m.fn('hw', a[-2], a[-1], lo=0, hi=FPI)
        if len(a) == 3:
            m.store(a[0], v, ['d'], 8)
            return None
        return v
    return stub_map(X.prog, {r'Box::halfWidthForCircle\(': st})


def lonlat_stub(X):
    def st(m, a):
        v = lds(m, a[1], 3)
        m.store(a[0], m.fn('lonOf', *v, lo=0, hi=2 * FPI), ['d'], 8)
        m.store(Ptr(a[0].obj, a[0].off + 8), m.fn('latOf', *v, lo=-F(PI / 2), hi=F(PI / 2)), ['d'], 8)
    return stub_map(X.prog, {r'LonLat::LonLat\(lsst::sphgeom::Vector3d const': st})


def do_circlebox(c, X):
    l = loc_of(X.prog, bounding('Box', 'Circle'))
    t = sym('theta', F(0), FPI)
    cen = v3('c')
    log, made = [], []

    def boxctor(m, a):
        # Box(LonLat const &, Angle w, Angle h)
        ll = lds(m, a[1], 2)
        made.append((ll, a[2], a[3]))
        for i, v in enumerate((P(ll[0]).add(P(a[2]), -1), P(ll[0]).add(P(a[2])), P(ll[1]).add(P(a[3]), -1), P(ll[1]).add(P(a[3])))):
            m.store(Ptr(a[0].obj, a[0].off + 8 + 8 * i), v, ['d'], 8)
    stubs = dict(X.scl)
    stubs.update(half_stub(X, log))
    stubs.update(lonlat_stub(X))
    stubs.update(stub_map(X.prog, {r'Box::Box\(lsst::sphgeom::LonLat const&, lsst::sphgeom::Angle, lsst::sphgeom::Angle\)': boxctor}))

    def go(m):
        log.clear()
        made.clear()
        x = m.call('h_mk', [1, buf(m, cen + [t])])
        o = call_out(m, 'h_box', [x], 4)
        return o, list(log), list(made)
    for R in ex(c, X, go, stubs, 'circle-box', l):
        m = R.m
        o, lg, mk = R.value
        lon, lat = m.fn('lonOf', *cen, lo=0, hi=2 * FPI), m.fn('latOf', *cen, lo=-F(PI / 2), hi=F(PI / 2))
        whole = [(-1, o[0], lon), (1, o[1], lon)]
        c.expect(ge(m, sub(lat, o[2]), t.add(P(TINY))) and ge(m, sub(o[3], lat), t.add(P(TINY))), 'box-encloses', 'circle-box:lat', l,
                 lambda: 'latitudes [%s, %s] do not reach %s on either side of %s; %s' % (o[2], o[3], t, lat, R.path(6)))
        hw = [m.fn('hw', r, la, lo=0, hi=FPI) for r, la in lg if P(la) == lat and ge(m, r, t)]
        full = ge(m, sub(o[1], o[0]), 2 * PI) or ge(m, sub(o[1], lon), PI)
        ok = full or any(ge(m, sub(lon, o[0]), h.add(P(TINY))) and ge(m, sub(o[1], lon), h.add(P(TINY))) for h in hw)
        c.expect(ok, 'box-encloses', 'circle-box:lon', l, lambda: 'longitudes [%s, %s]: not the half width for the circle radius and latitude, asked %s; %s' % (o[0], o[1], lg, R.path(6)))


def do_circle3d(c, X, ax):
    l = loc_of(X.prog, bounding('Box3d', 'Circle'))
    t = sym('theta', F(0), FPI)
    cen = v3('c')
    tc, ts = None, None

    def scl(m, a):
        return P(2).add(m.fn('cos', a[0]).scale(-2))

    def go(m):
        m.learn(m.fn('sin', t), {0, 1})
        x = m.call('h_mk', [1, buf(m, cen + [t])])
        return call_out(m, 'h_box3d', [x], 6)

    def pol(m, p, s):
        # the other axes take one outcome
        at = p.all_atoms()
        if any(P(z).single_atom() in at for i, z in enumerate(cen) if i != ax) and P(cen[ax]).single_atom() not in at:
            return max(s)
        return None
    stubs = stub_map(X.prog, {r'Circle::squaredChordLengthFor\(': scl})
    for R in ex(c, X, go, stubs, 'circle-3d', l, {'policy': pol}):
        m, o = R.m, R.value
        ci = P(cen[ax])
        ct, st = m.fn('cos', t), m.fn('sin', t)
        if not all(isnum(z) for z in o):
            c.fail('box3d-encloses', 'circle-3d:empty', l, 'no box for a circle that is not empty; %s' % R.path(5))
            continue
        full = sgn(m, sub(P(2).add(ct.scale(-2)), P(4))) <= {0, 1}
        di = mathfn(m, 'sqrt', P(1).add(ci.mul(ci), -1))
        m.learn(di.mul(st), {0, 1})
        for sg, b in ((1, o[2 * ax + 1]), (-1, P(o[2 * ax]).neg())):
            cand = ci.scale(sg).mul(ct).add(di.mul(st))      # sin(asin(sg ci) + theta)
            m.learn(cand.add(P(-1)), {-1, 0})
            inside = sgn(m, P(2).add(ci.scale(-2 * sg)).add(P(2).add(ct.scale(-2)), -1))
            nm = '+-'[sg < 0] + XYZ[ax]
            if full or not inside <= {1}:
                c.expect(ge(m, b, 1), 'box3d-encloses', 'circle-3d:axis', l, lambda: 'the circle may contain %s, its box reaches %s; %s' % (nm, b, R.path(6)))
            else:
                c.expect(reach(m, b, cand.add(P(TINY))) and not (ge(m, cand, b) and not ge(m, b, 1)), 'box3d-encloses', 'circle-3d:rim', l,
                         lambda: 'towards %s the circle reaches %s, its box only %s; %s' % (nm, cand, b, R.path(6)))
            c.expect(ge(m, 1, b), 'box3d-encloses', 'circle-3d:clamp', l, lambda: 'bound %s towards %s may exceed 1' % (b, nm))


def do_self(c, X):
    """a circle is its own bounding circle, a box its own bounding box"""
    t, cen = sym('theta', F(0), FPI), v3('c')
    l = loc_of(X.prog, bounding('Circle', 'Circle'))
    for R in ex(c, X, lambda m: call_out(m, 'h_circle', [m.call('h_mk', [1, buf(m, cen + [t])])], 5), X.scl, 'circle-self', l):
        c.expect([P(z) for z in R.value] == [P(z) for z in cen] + [R.m.fn('scl', t), t], 'bounds-itself', 'circle-self', l, lambda: 'the bounding circle of a circle is %s' % (R.value,))
    l = loc_of(X.prog, bounding('Box', 'Box'))
    v = [sym('lonA', F(1), F(2)), sym('lonB', F(3), F(4)), sym('latA', F(-1), F(-1, 2)), sym('latB', F(1, 2), F(1))]
    for w in (v, [v[1], v[0]] + v[2:]):
        for R in ex(c, X, lambda m: call_out(m, 'h_box', [m.call('h_mk', [0, buf(m, w)])], 4), X.scl, 'box-self', l):
            c.expect([P(z) for z in R.value] == [P(z) for z in w], 'bounds-itself', 'box-self', l, lambda: 'the bounding box of a box is %s' % (R.value,))


def do_empties(c, X):
    for k, cls in ((6, 'Box'), (7, 'Circle'), (8, 'Ellipse'), (9, 'Box'), (10, 'Circle'), (11, 'Ellipse'), (12, 'Circle')):
        for f, n in (('Circle', 5), ('Box', 4), ('Box3d', 6)):
            l = loc_of(X.prog, bounding(f, cls))
            p = [0.6, 0.0, 0.8]
            for R in ex(c, X, lambda m: call_out(m, 'h_' + f.lower(), [m.call('h_mk', [k, buf(m, p)])], n), {}, 'empty-full', l, {}):
                o = [float(P(z).cval()) if isinstance(z, Poly) and z.is_const() else z for z in R.value]
                key = 'trivial:%s:%s:%d' % (cls, f, k)
                if not all(isinstance(z, float) for z in o):
                    c.fail('trivial-regions', key, l, 'the bound of a constant region is %s' % (o,))
                    continue
                if k in (6, 7, 8):
                    good = not o[3] >= 0 if n == 5 else not (o[2] <= o[3]) if n == 4 else any(not o[2 * i] <= o[2 * i + 1] for i in range(3))
                elif k == 12:
                    good = o[3] >= 0 if n == 5 else o[0] <= 2 * PI and o[2] < o[3] and o[2] < math_asin(.8) < o[3] if n == 4 \
                        else all(o[2 * i] < [.6, 0., .8][i] < o[2 * i + 1] for i in range(3))
                else:
                    good = o[3] >= 4 if n == 5 else (o[0] == 0 and o[1] >= 2 * PI - 1e-15 and o[2] <= -PI / 2 and o[3] >= PI / 2) if n == 4 \
                        else all(o[2 * i] <= -1 and o[2 * i + 1] >= 1 for i in range(3))
                c.expect(good, 'trivial-regions', key, l, lambda: 'the %s of %s %s is %s' % (f, {6: 'an empty', 7: 'an empty', 8: 'an empty', 12: 'a one-point'}.get(k, 'a full'), cls, o))


def math_asin(x):
    import math
    return math.asin(x)


# ---- boxes ----------------------------------------------------------------------
AXES = [(0.0, 0, 1), (0.5 * PI, 1, 1), (PI, 0, -1), (1.5 * PI, 1, -1)]


def lon_sym(nm, k, half=None):
    """position k: 2i is axis longitude i, 2i+1 the open gap after it; half splits a gap"""
    if k % 2 == 0:
        return AXES[k // 2][0]
    lo = F(AXES[k // 2][0])
    hi = F(AXES[k // 2 + 1][0]) if k < 7 else 2 * FPI
    return sym(nm, lo + F(1, 100) if half != 1 else lo + F(8, 10), hi - F(1, 100) if half != 0 else lo + F(7, 10))


LATS = [-0.5 * PI, (-F(PI / 2) + F(1, 100), F(-1, 100)), 0.0, (F(1, 100), F(PI / 2) - F(1, 100)), 0.5 * PI]


def lat_syms(lp):
    out = []
    for nm, k, half in (('latA', lp[0], 0), ('latB', lp[1], 1)):
        z = LATS[k]
        if isinstance(z, tuple):
            lo, hi = z
            if lp[0] == lp[1]:
                mid = (lo + hi) / 2
                lo, hi = (lo, mid - F(1, 100)) if half == 0 else (mid, hi)
            z = sym(nm, lo, hi)
        out.append(z)
    return out


def lon_case(a, b):
    """(lonA, lonB, set of axis longitudes inside)"""
    if a == 9:
        return 0.0, 2 * PI, {0, 1, 2, 3}
    if b < 0:                       # wraps within one gap: a > b, both in gap a
        A, B = lon_sym('lonA', a, 1), lon_sym('lonB', a, 0)
        return A, B, {0, 1, 2, 3}
    if a == b and a % 2:
        A, B = lon_sym('lonA', a, 0), lon_sym('lonB', b, 1)
        return A, B, set()
    A, B = lon_sym('lonA', a), lon_sym('lonB', b)
    if a <= b:
        return A, B, {i for i in range(4) if a <= 2 * i <= b}
    return A, B, {i for i in range(4) if 2 * i >= a or 2 * i <= b}


def do_box3d(c, X, lons, lats):
    l = loc_of(X.prog, bounding('Box3d', 'Box'))
    A, B, inside = lon_case(*lons)
    a, b = lat_syms(lats)
    key = 'box-3d'

    def trig(m, f, x):
        return P(mathfn(m, f, x if isinstance(x, float) else P(x)))

    def go(m):
        for z in (a, b):
            if not isinstance(z, float):
                m.learn(trig(m, 'cos', z), {0, 1})
        if isinstance(trig(m, 'sin', a), Poly):
            m.learn(sub(trig(m, 'sin', a), trig(m, 'sin', b)), {-1} if not sub(a, b).is_const() or sub(a, b).t else {0})
        for z in (A, B):
            for w in (a, b):
                for f in ('cos', 'sin'):
                    q = trig(m, f, z).mul(trig(m, 'cos', w))
                    if not q.is_const():
                        m.learn(q.add(P(-1)), {-1, 0})
                        m.learn(q.add(P(1)), {0, 1})
        return call_out(m, 'h_box3d', [m.call('h_mk', [0, buf(m, [A, B, a, b])])], 6)
    for R in ex(c, X, go, {}, key, l):
        m, o = R.m, R.value
        eq = lats[0] <= 2 <= lats[1]
        ca, cb, sa, sb = trig(m, 'cos', a), trig(m, 'cos', b), trig(m, 'sin', a), trig(m, 'sin', b)
        slack = F(1, 2**54)
        for i in range(2):
            f = ('cos', 'sin')[i]
            for sg, bd in ((1, o[2 * i + 1]), (-1, P(o[2 * i]).neg())):
                cands = []
                for z in (A, B):
                    t = trig(m, f, z).scale(sg)
                    cands += [t.mul(ca), t.mul(cb)] + ([t] if eq else [])
                for j in inside:
                    if AXES[j][1] == i and AXES[j][2] == sg:
                        cands += [P(1)] if eq else [ca, cb]
                nm = '+-'[sg < 0] + XYZ[i]
                for q in cands:
                    good = reach(m, bd, q.add(P(slack)))
                    c.expect(good, 'box3d-encloses', key + ':' + nm, l,
                             lambda: 'box with longitudes %s..%s, latitudes %s..%s: towards %s it reaches %s, its 3-d box only %s; %s' % (A, B, a, b, nm, q, bd, R.path(5)))
                # not loose: every operand is one of the candidates, or 1, plus a little
                for y in leaves(bd):
                    near = y == P(1) or any(sgn(m, sub(y, q).add(P(-F(1, 10**14)))) <= {-1, 0} for q in cands)
                    c.expect(near, 'box3d-tight', key + ':tight', l, lambda: 'box with longitudes %s..%s, latitudes %s..%s: bound %s towards %s uses %s, which no point of the box attains' % (A, B, a, b, bd, nm, y))
                c.expect(ge(m, 1, bd), 'box3d-encloses', key + ':clamp', l, lambda: 'bound %s may exceed 1' % (bd,))
        for sg, bd, q in ((1, o[5], sb), (-1, P(o[4]).neg(), sa.neg())):
            good = reach(m, bd, q.add(P(slack)))
            c.expect(good and ge(m, 1, bd), 'box3d-encloses', key + ':z', l, lambda: 'latitudes %s..%s: z bounds %s..%s' % (a, b, o[4], o[5]))
            for y in leaves(bd):
                c.expect(y == P(1) or sgn(m, sub(y, q).add(P(-F(1, 10**14)))) <= {-1, 0}, 'box3d-tight', key + ':ztight', l, lambda: 'latitudes %s..%s: z bounds %s..%s' % (a, b, o[4], o[5]))


def do_dilate(c, X):
    l = loc_of(X.prog, r'Box::dilateBy\(lsst::sphgeom::Angle\)')
    log, lon = [], []

    def londil(m, a):
        lon.append(a[1])
        return a[0]
    stubs = half_stub(X, log)
    stubs.update(stub_map(X.prog, {r'NormalizedAngleInterval::dilateBy\(': londil}))
    r = sym('r', F(1, 1000), FPI)
    for lp in ((1, 1), (1, 3), (3, 3), (0, 1), (3, 4), (1, 2)):
        a, b = lat_syms(lp)
        v = [sym('lonA', F(1), F(2)), sym('lonB', F(3), F(4)), a, b]

        def go(m):
            log.clear()
            lon.clear()
            x = m.call('h_mk', [0, buf(m, v)])
            o = call_out(m, 'h_dil', [x, r], 4)
            return o, list(log), list(lon)
        for R in ex(c, X, go, stubs, 'dilate', l):
            m = R.m
            o, lg, ln = R.value
            for nm, bd, q in (('south', P(o[2]).neg(), P(a).neg().add(r)), ('north', P(o[3]), P(b).add(r))):
                c.expect(reach(m, bd, q, F(PI / 2)), 'box-encloses', 'dilate:' + nm, l, lambda: 'latitudes %s..%s dilated by %s: %s..%s; %s' % (a, b, r, o[2], o[3], R.path(6)))
            good = False
            for w in ln:
                for rr, la in lg:
                    if ge(m, w, m.fn('hw', rr, la, lo=0, hi=FPI)) and ge(m, rr, r) and all(ge(m, la, s) for z in (a, b) for s in (P(z), P(z).neg())):
                        good = True
            c.expect(good, 'box-encloses', 'dilate:width', l, lambda: 'longitudes dilated by %s, half widths asked for (radius, latitude) %s: not for the radius and the largest |latitude| of %s, %s; %s' % (ln, lg, a, b, R.path(6)))


def unit_stub(X):
    def st(m, a):
        lon, lat = a[1], a[2]
        for i in range(3):
            m.store(Ptr(a[0].obj, a[0].off + 8 * i), unitc(m, lon, lat, i), ['d'], 8)
    return stub_map(X.prog, {r'UnitVector3d::UnitVector3d\(lsst::sphgeom::Angle, ': st})


def unitc(m, lon, lat, i):
    return m.fn('unit' + XYZ[i], P(lon), P(lat), lo=-1, hi=1)


def do_boxcircle(c, X, which, lats):
    l = loc_of(X.prog, bounding('Circle', 'Box'))
    a, b = lat_syms(lats)
    A, B, w, mid = [(sym('lonA', F(1), F(2)), sym('lonB', F(3), F(4)), None, None),
                    (sym('lonA', F(5), F(6)), sym('lonB', F(1, 4), F(1, 2)), None, None),
                    (sym('lonA', F(4), F(5)), sym('lonB', F(3), F(7, 2)), None, None),
                    (0.0, 2 * PI, None, None)][which]
    w = sub(B, A) if which in (0, 3) else sub(B, A).add(P(2 * FPI))
    mid = P(A).add(w.scale(F(1, 2)))
    log = []
    stubs = dict(X.scl)
    stubs.update(unit_stub(X))
    if lats[0] == 0 and lats[1] == 4 and which == 3:
        return

    def go(m):
        return call_out(m, 'h_circle', [m.call('h_mk', [0, buf(m, [A, B, a, b])])], 5)
    for R in ex(c, X, go, stubs, 'box-circle', l, {'div0': True}):
        m, o = R.m, R.value
        key = 'box-circle'
        cen = o[:3]
        args = None
        at = [P(z).single_atom() for z in cen]
        if all(z is not None and z.kind == 'unit' + XYZ[i] for i, z in enumerate(at)) and len({z.args for z in at}) == 1:
            args = at[0].args
        nw = all(isinstance(z, (float, Poly)) for z in cen)
        if args is not None:
            d = sub(args[0], mid)
            onmid = any(sgn(m, d.add(P(2 * FPI * k + e))) <= s for k in (0, 1, -1) for e, s in ((0, {0}),)) or any(
                sgn(m, d.add(P(2 * FPI * k + F(1, 10**12)))) <= {1} and sgn(m, d.add(P(2 * FPI * k - F(1, 10**12)))) <= {-1} for k in (0, 1, -1))
            c.expect(onmid, 'circle-encloses', key + ':meridian', l, lambda: 'the centre is at longitude %s, the middle of the box at %s; %s' % (args[0], mid, R.path(6)))
        radius = None
        z = P(o[4]).single_atom()
        small = sgn(m, w.add(P(-FPI)))
        if z is not None and z.kind == 'oa':
            # a squared chord length: must reach all four vertices, which is
            # enough only if the box spans at most pi in longitude
            c.expect(small <= {-1, 0} and args is not None, 'circle-encloses', key + ':wide', l, lambda: 'a circle through the vertices bounds a box %s wide; %s' % (w, R.path(6)))
            for lon in (A, B):
                for lat in (a, b):
                    q = P(0)
                    for i in range(3):
                        t = sub(cen[i], unitc(m, lon, lat, i))
                        q = q.add(t.mul(t))
                    c.expect(ge(m, o[3], q.add(P(TINY))), 'circle-encloses', key + ':vertex', l, lambda: 'the bounding circle need not reach the vertex (%s, %s): %s; %s' % (lon, lat, o[3], R.path(6)))
        else:
            rad = P(o[4])
            if args is not None:
                good = P(args[1]) == P(0) and ge(m, rad, w.scale(F(1, 2)).add(P(TINY))) and sgn(m, w.add(P(-FPI))) <= {0, 1} and which != 3
            else:
                cz = [float(P(q).cval()) if P(q).is_const() else None for q in cen]
                good = cz[:2] == [0.0, 0.0] and (cz[2] == 1.0 and ge(m, rad, P(F(PI / 2)).add(P(a), -1).add(P(TINY))) or
                                                 cz[2] == -1.0 and ge(m, rad, P(F(PI / 2)).add(P(b)).add(P(TINY))))
            c.expect(good, 'circle-encloses', key + ':cap', l, lambda: 'centre %s, opening angle %s for latitudes %s..%s, width %s; %s' % (cen, rad, a, b, w, R.path(6)))


# ---- polygons -------------------------------------------------------------------
def verts(k):
    return [v3('v%d' % i) for i in range(k + 1)]


def do_polycircle(c, X, k):
    l = loc_of(X.prog, bounding('Circle', 'ConvexPolygon'))
    vs = verts(k)
    lc = loc_of(X.prog, r'detail::centroid<')
    got = []

    def norm(m, a):
        # normalisation of an edge normal: the unit vector and its length
        v = lds(m, a[0], 3)
        got.append(v)
        for i in range(3):
            m.store(Ptr(a[0].obj, a[0].off + 8 * i), m.fn('unit%d' % i, *v, lo=-1, hi=1), ['d'], 8)
        return m.fn('norm', *v, lo=0)
    stubs = dict(X.scl)
    stubs.update(stub_map(X.prog, {r'Vector3d::normalize\(\)': norm}))

    def go(m):
        got.clear()
        return call_out(m, 'h_circle', [m.call('h_mk', [k, buf(m, sum(vs, []))])], 5), list(got)

    def pol(m, p, s):
        # the degenerate edges of the centroid are not of interest here
        if all(at.kind == 'norm' for at in p.atoms()) and 1 in s:
            return 1
        return None
    for R in ex(c, X, go, stubs, 'polygon-circle', l, {'policy': pol}):
        m = R.m
        o, g = R.value
        cen = o[:3]
        for i, v in enumerate(vs):
            q = P(0)
            for j in range(3):
                t = sub(cen[j], v[j])
                q = q.add(t.mul(t))
            c.expect(ge(m, o[3], q.add(P(TINY))), 'circle-encloses', 'polygon-circle:%d' % k, l, lambda: 'the bounding circle need not reach vertex %d: %s; %s' % (i, o[3], R.path(6)))
        # the centre is the normalised sum of edge normals times edge angles / 2
        at = P(cen[0]).single_atom()
        ok = at is not None and at.kind == 'unit0' and [P(z) for z in cen[1:]] == [m.fn('unit%d' % i, *at.args, lo=-1, hi=1) for i in (1, 2)]
        if ok:
            tot = [P(0)] * 3
            for i in range(k + 1):
                p, q = vs[i - 1], vs[i]
                cr = [P(p[(j + 1) % 3]).mul(P(q[(j + 2) % 3])).add(P(p[(j + 2) % 3]).mul(P(q[(j + 1) % 3])), -1).scale(2) for j in range(3)]
                dot = P(0)
                for j in range(3):
                    dot = dot.add(P(p[j]).mul(P(q[j])))
                ang = P(mathfn(m, 'atan2', m.fn('norm', *cr, lo=0).scale(F(1, 2)), dot))
                for j in range(3):
                    tot[j] = tot[j].add(m.fn('unit%d' % j, *cr, lo=-1, hi=1).mul(ang))
            ok = all(sub(x, y).t == {} for x, y in zip(at.args, tot))
        c.expect(ok, 'centroid-formula', 'centroid:%d' % k, lc, lambda: 'the centroid direction is not the sum of edge normals weighted by edge length: %s' % (at.args if at else cen,))


def signs_policy(focus, variant):
    """keep the decisions of one edge (and axis) open, settle the others"""
    def pol(m, p, s):
        k = focus(p)
        if k is None or len(s) < 2:
            return None
        z = s - {0} or s
        seen = m.__dict__.setdefault('_alt', {})
        n = seen.setdefault('n', 0)
        seen['n'] += 1
        want = (1, -1, 1 if n % 2 == 0 else -1)[variant]
        return want if want in z else max(z)
    return pol


def vert_of(p):
    out = set()
    for a in p.all_atoms():
        if a.kind == 'sym' and a.args[0][0] == 'v' and a.args[0][1].isdigit():
            out.add(int(a.args[0][1]))
    return out


def orient_hook(X, axis, vs, answers, bad):
    name = 'orientation' + 'XYZ'[axis]

    def st(m, a):
        u = [vert_of(P(z)) for p in a[:2] for z in lds(m, p, 1)]
        i, j = (next(iter(x)) if len(x) == 1 else None for x in u)
        n = len(vs)
        if i is not None and j is not None and (i + 1) % n == j:
            s, e = 1, j
        elif i is not None and j is not None and (j + 1) % n == i:
            s, e = -1, i
        else:
            bad.append((i, j))
            return 0
        return (s * answers[e]) & 0xffffffff
    return stub_map(X.prog, {r'sphgeom::%s\(' % name: st})


def box_stubs(X):
    """boxes as a set of longitude terms and a latitude interval"""
    sets = {}

    def put(m, p, terms, lo, hi):
        nm = frozenset(terms)
        a = sym('lons{%s}' % '; '.join(sorted(map(str, nm))))
        sets[a] = nm
        for i, v in enumerate((a, a, lo, hi)):
            m.store(Ptr(p.obj, p.off + 8 + 8 * i), v, ['d'], 8)

    def terms(m, p):
        lo, hi = lds(m, p, 2, 8)
        if isinstance(lo, Poly) and lo in sets:
            return sets[lo]
        if isinstance(lo, float) and isinstance(hi, float):
            if lo != lo or hi != hi:
                return frozenset()
            if lo == 0 and hi >= 2 * PI:
                return frozenset(['all'])
        return frozenset([(P(lo), P(hi))])

    def ctor(m, a):
        ll = lds(m, a[1], 2)
        put(m, a[0], [('around', P(ll[0]), P(a[2]))], P(ll[1]).add(P(a[3]), -1), P(ll[1]).add(P(a[3])))

    def copy(m, a):
        lon, lat = lds(m, a[1], 2), lds(m, a[2], 2)
        for i, v in enumerate(lon + lat):
            m.store(Ptr(a[0].obj, a[0].off + 8 + 8 * i), v, ['d'], 8)

    def empty(m, p):
        lo, hi = lds(m, p, 2, 24)
        return isinstance(lo, float) and isinstance(hi, float) and not lo <= hi

    def expand(m, a):
        if empty(m, a[1]):
            return a[0]
        t = terms(m, a[1])
        lo, hi = lds(m, a[1], 2, 24)
        if not empty(m, a[0]):
            t = t | terms(m, a[0])
            l2, h2 = lds(m, a[0], 2, 24)
            lo, hi = minmax(m, False, lo, l2), minmax(m, True, hi, h2)
        put(m, a[0], t, lo, hi)
        return a[0]

    def latexp(m, a):
        lo, hi = lds(m, a[0], 2)
        m.store(a[0], minmax(m, False, lo, a[1]), ['d'], 8)
        m.store(Ptr(a[0].obj, a[0].off + 8), minmax(m, True, hi, a[1]), ['d'], 8)
        return a[0]
    st = stub_map(X.prog, {r'Box::Box\(lsst::sphgeom::LonLat const&, lsst::sphgeom::Angle, lsst::sphgeom::Angle\)': ctor,
                           r'Box::Box\(lsst::sphgeom::NormalizedAngleInterval const&, lsst::sphgeom::AngleInterval const&\)': copy,
                           r'Box::expandTo\(lsst::sphgeom::Box const&\)': expand,
                           r'Interval<lsst::sphgeom::AngleInterval, lsst::sphgeom::Angle>::expandTo\(lsst::sphgeom::Angle\)': latexp})
    # Box objects are constructed with their virtual table by the real code
    # otherwise; the hooks only write the intervals
    return st, sets


def latof_stub(X):
    def st(m, a):
        v = lds(m, a[-1], 3)
        return m.fn('latof', *v, lo=-F(PI / 2), hi=F(PI / 2))
    return stub_map(X.prog, {r'LonLat::latitudeOf\(': st})


def cross2(p, q):
    return [P(p[(j + 1) % 3]).mul(P(q[(j + 2) % 3])).add(P(p[(j + 2) % 3]).mul(P(q[(j + 1) % 3])), -1) for j in range(3)]


def poly_box(c, X, answers, pol, key, l, check):
    vs = verts(2)
    bad = []
    bst, sets = box_stubs(X)
    stubs = dict(X.scl)
    stubs.update(bst)
    stubs.update(lonlat_stub(X))
    stubs.update(latof_stub(X))
    stubs.update(orient_hook(X, 2, vs, answers, bad))

    def go(m):
        x = m.call('h_mk', [2, buf(m, sum(vs, []))])
        return call_out(m, 'h_box', [x], 4)
    for R in ex(c, X, go, stubs, key, l, {'policy': pol}, maxpaths=4000):
        c.expect(not bad, 'orientation-of-edges', key + ':orient', l, lambda: 'orientationZ is asked about vertices %s' % bad[:3])
        check(R, vs, sets)


def do_polybox(c, X, edge, variant):
    l = loc_of(X.prog, r'detail::boundingBox<')
    l = l if l != r'detail::boundingBox<' else loc_of(X.prog, bounding('Box', 'ConvexPolygon'))
    i, j = (edge + 2) % 3, edge

    def focus(p):
        return None if vert_of(p) <= {i, j} else 1

    def check(R, vs, sets):
        m, o = R.m, R.value
        ts = sets.get(o[0], frozenset()) if isinstance(o[0], Poly) else frozenset()
        for k, v in enumerate(vs):
            lon, lat = m.fn('lonOf', *v, lo=0, hi=2 * FPI), m.fn('latOf', *v, lo=-F(PI / 2), hi=F(PI / 2))
            ok = any(t == 'all' or t[0] == 'around' and t[1] == lon and sgn(m, t[2]) == {1} for t in ts)
            c.expect(ok, 'box-encloses', 'polygon-box:lon', l, lambda: 'longitudes %s leave out vertex %d; %s' % (o[0], k, R.path(5)))
            c.expect(ge(m, P(o[3]), lat.add(P(TINY))) and ge(m, lat, P(o[2]).add(P(TINY))), 'box-encloses', 'polygon-box:lat', l,
                     lambda: 'latitudes %s..%s leave out vertex %d; %s' % (o[2], o[3], k, R.path(5)))
        n = cross2(vs[i], vs[j])
        # derivative of z along the edge, at its two ends
        di = P(vs[i][1]).mul(n[0]).add(P(vs[i][0]).mul(n[1]), -1)
        dj = P(vs[j][1]).mul(n[0]).add(P(vs[j][0]).mul(n[1]), -1)
        rho = n[0].mul(n[0]).add(n[1].mul(n[1]))
        top = [n[0].mul(n[2]).neg(), n[1].mul(n[2]).neg(), rho]
        for sg, nm in ((1, 'maximum'), (-1, 'minimum')):
            if not (1 in sgn(m, di.scale(sg)) and -1 in sgn(m, dj.scale(sg))):
                continue
            if sgn(m, rho) <= {0} or all(sgn(m, z) <= {0} for z in top):
                continue
            e = [z.scale(sg) for z in top]
            bd = P(o[3]) if sg > 0 else P(o[2]).neg()
            found = False
            for y in leaves(bd):
                for at in y.atoms():
                    if at.kind != 'latof' or y.t.get(((at, 1),)) not in (F(1), F(-1)):
                        continue
                    s = y.t[((at, 1),)]
                    if s < 0:
                        # latOf(-v) = -latOf(v)
                        av = [z.neg() for z in at.args]
                    else:
                        av = list(at.args)
                    av = [z for z in av]
                    cst = y.cval()
                    base = [z if sg > 0 else z for z in e]
                    # direction of the bound: for a minimum, -lat(e) = lat(-e)
                    tgt = base if sg > 0 else [z.neg() for z in base]
                    if parallel_to(av, tgt) and cst > 0 and ge(m, bd, y):
                        found = True
            c.expect(found, 'box-encloses', 'polygon-box:edge', l, lambda: 'the %s latitude may lie inside the edge, and latitudes %s..%s do not include it; %s' % (nm, o[2], o[3], R.path(8)))
    poly_box(c, X, {0: 1, 1: -1, 2: 1}, signs_policy(focus, variant), 'polygon-box', l, check)


def parallel_to(u, v):
    """u = k v for a positive constant k"""
    for a, b in zip(u, v):
        a, b = P(a), P(b)
        if b.t:
            k0 = next(iter(b.t))
            k = a.t.get(k0, F(0)) / b.t[k0]
            break
    else:
        return False
    return k > 0 and all(sub(a, P(b).scale(k)).t == {} for a, b in zip(u, v))


def do_polypole(c, X):
    l = loc_of(X.prog, bounding('Box', 'ConvexPolygon'))
    import itertools
    for ans in itertools.product((-1, 0, 1), repeat=3):
        def check(R, vs, sets):
            m, o = R.m, R.value
            ts = sets.get(o[0], frozenset()) if isinstance(o[0], Poly) else frozenset(['all'] if o[0] == 0 and o[1] >= 2 * PI else [])
            if -1 not in ans and any(ans):
                c.expect('all' in ts and ge(m, P(o[3]), PI / 2), 'box-encloses', 'polygon-box:north', l, lambda: 'the north pole is inside (orientations %s), longitudes %s, latitudes to %s' % (ans, o[0], o[3]))
            elif 1 not in ans and any(ans):
                c.expect('all' in ts and ge(m, P(o[2]).neg(), PI / 2), 'box-encloses', 'polygon-box:south', l, lambda: 'the south pole is inside (orientations %s), longitudes %s, latitudes from %s' % (ans, o[0], o[2]))
            elif any(ans):
                c.expect('all' not in ts, 'box-tight', 'polygon-box:nopole', l, lambda: 'no pole is inside (orientations %s) but the box spans all longitudes' % (ans,))
        poly_box(c, X, dict(enumerate(ans)), signs_policy(lambda p: 1, 0), 'polygon-pole', l, check)


def poly_3d(c, X, answers, pol, key, l, check):
    vs = verts(2)
    bad = []
    nrm = {}

    def ctor(m, a):
        v = tuple(P(z) for z in lds(m, a[1], 3))
        e = frozenset().union(*[vert_of(z) for z in v])
        nm = 'n' + ''.join(map(str, sorted(e)))
        n = v3(nm)
        m.__dict__.setdefault('_nrm', {})[nm] = (v, n)
        for i in range(3):
            m.store(Ptr(a[0].obj, a[0].off + 8 * i), n[i], ['d'], 8)
    stubs = dict(X.scl)
    stubs.update(stub_map(X.prog, {r'UnitVector3d::UnitVector3d\(lsst::sphgeom::Vector3d const': ctor}))
    for ax in range(3):
        stubs.update(orient_hook(X, ax, vs, answers[ax], bad))

    def go(m):
        x = m.call('h_mk', [2, buf(m, sum(vs, []))])
        return call_out(m, 'h_box3d', [x], 6)
    for R in ex(c, X, go, stubs, key, l, {'policy': pol}, maxpaths=4000):
        c.expect(not bad, 'orientation-of-edges', key + ':orient', l, lambda: 'an orientation predicate is asked about vertices %s' % bad[:3])
        check(R, vs, R.m.__dict__.get('_nrm', {}))


MIX = {0: 1, 1: -1, 2: 1}


def do_poly3d(c, X, edge, ax, variant):
    l = loc_of(X.prog, bounding('Box3d', 'ConvexPolygon'))
    i, j = (edge + 2) % 3, edge
    nm = 'n%d%d' % tuple(sorted((i, j)))
    o1, o2 = [z for z in range(3) if z != ax]

    def focus(p):
        names = {a.args[0] for a in p.all_atoms() if a.kind == 'sym'}
        n = {x for x in names if x[0] == 'n'}
        if n and n <= {nm + '.' + q for q in XYZ}:
            k = {x[-1] for x in n}
            if k == {XYZ[ax]} or k == {XYZ[o1], XYZ[o2]}:
                return None
        return 1

    def check(R, vs, nrm):
        m, o = R.m, R.value
        for k, v in enumerate(vs):
            for a in range(3):
                for sg, bd in ((1, P(o[2 * a + 1])), (-1, P(o[2 * a]).neg())):
                    q = P(v[a]).scale(sg)
                    good = atleast(m, bd, q.add(P(TINY)))
                    c.expect(good, 'box3d-encloses', 'polygon-3d:vertex', l, lambda: 'bound %s on %s leaves out vertex %d; %s' % (bd, '+-'[sg < 0] + XYZ[a], k, R.path(5)))
        if nm not in nrm:
            c.fail('box3d-encloses', 'polygon-3d:normal', l, 'no normal of edge %d-%d is computed' % (i, j))
            return
        arg, n = nrm[nm]
        cr = cross2(vs[i], vs[j])
        flip = 1 if parallel_to(arg, cr) else -1 if parallel_to(arg, [z.neg() for z in cr]) else 0
        c.expect(flip != 0, 'box3d-encloses', 'polygon-3d:normal', l, lambda: 'the normal of edge %d-%d is the direction of %s' % (i, j, arg))
        n = [P(z).scale(flip or 1) for z in n]
        ti, tj = cross2(n, vs[i])[ax], cross2(n, vs[j])[ax]
        if sgn(m, P(1).add(n[ax].mul(n[ax]), -1)) <= {0, -1}:
            return
        ext = mathfn(m, 'sqrt', P(1).add(n[ax].mul(n[ax]), -1))
        for sg, bd in ((1, P(o[2 * ax + 1])), (-1, P(o[2 * ax]).neg())):
            if 1 in sgn(m, ti.scale(sg)) and -1 in sgn(m, tj.scale(sg)):
                q = ext.add(P(TINY))
                good = reach(m, bd, q)
                c.expect(good, 'box3d-encloses', 'polygon-3d:edge', l, lambda: 'towards %s the edge %d-%d may reach %s, the bound is %s; %s' % ('+-'[sg < 0] + XYZ[ax], i, j, ext, bd, R.path(8)))
            c.expect(ge(m, 1, bd), 'box3d-encloses', 'polygon-3d:clamp', l, lambda: 'bound %s may exceed 1' % (bd,))
    poly_3d(c, X, {a: MIX for a in range(3)}, signs_policy(focus, variant), 'polygon-3d', l, check)


def do_polyaxis(c, X, ax):
    import itertools
    l = loc_of(X.prog, bounding('Box3d', 'ConvexPolygon'))
    for ans in itertools.product((-1, 0, 1), repeat=3):
        def check(R, vs, nrm):
            m, o = R.m, R.value
            lo, hi = o[2 * ax], o[2 * ax + 1]
            if -1 not in ans:
                c.expect(ge(m, hi, 1), 'box3d-encloses', 'polygon-3d:+axis', l, lambda: '+%s is inside (orientations %s), the bound is %s' % (XYZ[ax], ans, hi))
            if 1 not in ans:
                c.expect(ge(m, P(lo).neg(), 1), 'box3d-encloses', 'polygon-3d:-axis', l, lambda: '-%s is inside (orientations %s), the bound is %s' % (XYZ[ax], ans, lo))
            if -1 in ans and 1 in ans:
                c.expect(not (P(hi) == P(1)) and not P(lo) == P(-1), 'box3d-tight', 'polygon-3d:noaxis', l, lambda: 'neither of +-%s is inside (orientations %s), bounds %s..%s' % (XYZ[ax], ans, lo, hi))
        answers = {a: MIX for a in range(3)}
        answers[ax] = dict(enumerate(ans))
        poly_3d(c, X, answers, signs_policy(lambda p: 1, 0), 'polygon-axis', l, check)


# ---- ellipses -------------------------------------------------------------------
def do_ellipse(c, X, case):
    l = loc_of(X.prog, bounding('Circle', 'Ellipse'))
    cen = [1.0, 0.0, 0.0]
    hp = F(PI / 2)
    small, tiny = (F(1, 2), F(1)), (F(1, 10), F(1, 3))
    big, mid = (F(2), F(3)), (F(8, 5), F(19, 10))
    ab = [(small, tiny), (tiny, small), (big, mid), (mid, big), (small, None), (big, None), None, None][case]
    kind = 4
    if ab is None:
        kind = 5
        al = sym('alpha', *(small if case == 6 else big))
        al0 = al
        vals = [1.0, 0.0, 0.0] + ([0.0, 1.0, 0.0] if case == 7 else [0.96, 0.28, 0.0]) + [al]
        be = None
        cen = None
    else:
        al = sym('alpha', *ab[0])
        be = sym('beta', *ab[1]) if ab[1] else al
        vals = cen + [al, be, sym('omega', F(-3), F(3))]
    got = []

    def capture(n):
        def st(m, a):
            got.append((n, lds(m, a[1], 5, 8)))
            k = 5 if n == 'Box' else 6
            for i in range(k):
                m.store(Ptr(a[0].obj, a[0].off + 8 * i), sym('%s%d' % (n, i)), ['d'], 8)
        return st
    stubs = dict(X.scl)
    stubs.update(stub_map(X.prog, {r'Circle::getBoundingBox\(\)': capture('Box'), r'Circle::getBoundingBox3d\(\)': capture('Box3d')}))
    if kind == 4:
        # the frame is orthonormal up to rounding (C19); its orientation does not matter here
        stubs.update(stub_map(X.prog, {r'Vector3d::normalize\(\)': lambda m, a: 1.0}))
    for f, n in (('circle', 5), ('box', 4), ('box3d', 6)):
        def go(m):
            got.clear()
            x = m.call('h_mk', [kind, buf(m, vals)])
            return call_out(m, 'h_' + f, [x], n), list(got), lds(m, x, 14, 8)
        for R in ex(c, X, go, stubs, 'ellipse', l):
            m = R.m
            o, g, raw = R.value
            if f != 'circle':
                if not c.expect(len(g) >= 1 and P(o[0]) == sym(('Box1' if f == 'box' else 'Box3d0')), 'box-encloses', 'ellipse:' + f, l, 'the %s of an ellipse is %s' % (f, o)):
                    continue
                o = g[-1][1]
            rad = P(o[4])
            if kind == 4:
                good = ge(m, rad, al.add(P(TINY))) and ge(m, rad, P(be).add(P(TINY))) and [P(z) for z in o[:3]] == [P(z) for z in cen]
            else:
                good = ge(m, rad, al.add(P(TINY)))
            good = good and (P(o[3]) == m.fn('scl', rad))
            c.expect(good, 'circle-encloses', 'ellipse:' + f, l, lambda: 'an ellipse with semi-axes %s, %s is bounded by a circle at %s of radius %s (%s); %s' % (al, be, o[:3], rad, o[3], R.path(6)))
