"""C18: circle set operations; ellipse and polygon membership."""
from common import *
from framework import parallel
from absint import Infeasible, mathfn, minmax
from c_C16 import Ctx, std_minmax, buf, lds, sgn, sub, ge, ex, call_out, TINY, FPI, PI, F, v3, isnum

EXPLANATION = (
    'Abstract interpretation in the exact polynomial domain. Two circles are a centre at angle 0 and one at an unknown angle cc of the '
    'same great circle with unknown opening angles; on every path of contains, isDisjointFrom, intersects, isWithin, clipTo, expandTo, '
    'dilateBy and complement the answer, or the centre angle and radius of the result, must be entailed to be right by linear arithmetic over '
    'the angles. Ellipse constructors and contains are compared with the equation of the documented ellipse for unknown semi-axes, '
    'orientation and point; polygon contains with the orientation predicates it must consult.')
ASSUMPTIONS = ['exact reals; answers may differ from the exact one within 1e-6 radians of tangency',
               'ellipse centres are axis directions and one generic direction; foci one pair of directions with unknown angle and semi-axis',
               'orientation predicates (C11), normalisation and angles between vectors (C17)']

HARNESS = OPAQUE_REGION + r'''
#include "lsst/sphgeom/orientation.h"
#include "lsst/sphgeom/Matrix3d.h"
static Circle mc(double const *v) {
  switch ((int) v[4]) { case 0: return Circle(); case 1: return Circle::full(); case 2: return Circle(U(v)); case 4: return Circle(U(v), -2.0); case 5: return Circle(U(v), 5.0); default: return Circle(U(v), Angle(v[3])); } }
static void out(Circle const &c, double *o) {
  o[0] = c.getCenter().x(); o[1] = c.getCenter().y(); o[2] = c.getCenter().z(); o[3] = c.getSquaredChordLength(); o[4] = c.getOpeningAngle().asRadians(); }
extern "C" void h_pred(double const *a, double const *b, double *o) { Circle x = mc(a), y = mc(b);
  o[0] = x.contains(y); o[1] = x.isDisjointFrom(y); o[2] = x.intersects(y); o[3] = y.isWithin(x); o[4] = x == y; o[5] = x != y; }
extern "C" void h_clip(double const *a, double const *b, double *o) { Circle x = mc(a); Circle &r = x.clipTo(mc(b)); out(r, o); o[5] = &r == &x; }
extern "C" void h_expand(double const *a, double const *b, double *o) { Circle x = mc(a); Circle &r = x.expandTo(mc(b)); out(r, o); o[5] = &r == &x; }
extern "C" void h_clipped(double const *a, double const *b, double *o) { Circle x = mc(a); out(x.clippedTo(mc(b)), o); o[5] = x == mc(a); }
extern "C" void h_expanded(double const *a, double const *b, double *o) { Circle x = mc(a); out(x.expandedTo(mc(b)), o); o[5] = x == mc(a); }
extern "C" void h_clipself(double const *a, double const *b, double *o) { Circle x = mc(a); Circle &r = x.clipTo(x); out(r, o); o[5] = 1; }
extern "C" void h_expandself(double const *a, double const *b, double *o) { Circle x = mc(a); Circle &r = x.expandTo(x); out(r, o); o[5] = 1; }
extern "C" void h_clippt(double const *a, double const *b, double *o) { Circle x = mc(a); Circle &r = x.clipTo(U(b)); out(r, o); o[5] = &r == &x; }
extern "C" void h_expandpt(double const *a, double const *b, double *o) { Circle x = mc(a); Circle &r = x.expandTo(U(b)); out(r, o); o[5] = &r == &x; }
extern "C" void h_clippedpt(double const *a, double const *b, double *o) { Circle x = mc(a); out(x.clippedTo(U(b)), o); o[5] = x == mc(a); }
extern "C" void h_expandedpt(double const *a, double const *b, double *o) { Circle x = mc(a); out(x.expandedTo(U(b)), o); o[5] = x == mc(a); }
extern "C" void h_pt(double const *a, double const *b, double *o) { Circle x = mc(a); UnitVector3d v = U(b);
  o[0] = x.contains(v); o[1] = x.isDisjointFrom(v); o[2] = x.intersects(v); o[3] = x.isWithin(v); o[4] = x.relate(v).to_ulong(); }
extern "C" void h_dil(double const *a, double r, double *o) { Circle x = mc(a); Circle &y = x.dilateBy(Angle(r)); out(y, o); o[5] = &x == &y; }
extern "C" void h_dilated(double const *a, double r, double *o) { Circle x = mc(a); out(x.dilatedBy(Angle(r)), o); o[5] = x == mc(a); }
extern "C" void h_ero(double const *a, double r, double *o) { Circle x = mc(a); Circle &y = x.erodeBy(Angle(r)); out(y, o); o[5] = &x == &y; }
extern "C" void h_eroded(double const *a, double r, double *o) { Circle x = mc(a); out(x.erodedBy(Angle(r)), o); o[5] = x == mc(a); }
extern "C" void h_comp(double const *a, double *o) { Circle x = mc(a); Circle &y = x.complement(); out(y, o); o[5] = &x == &y; }
extern "C" void h_complemented(double const *a, double *o) { Circle x = mc(a); out(x.complemented(), o); o[5] = x == mc(a); }
extern "C" double h_area(double const *a) { return mc(a).getArea(); }
static Ellipse me(double const *v) {
  switch ((int) v[15]) { case 0: return Ellipse(); case 1: return Ellipse::full(); case 2: return Ellipse(U(v), Angle(v[3])); case 3: return Ellipse(Circle(U(v), Angle(v[3])));
    case 4: return Ellipse(U(v), Angle(v[3]), Angle(v[4]), Angle(v[5])); default: return Ellipse(U(v), U(v + 6), Angle(v[3])); } }
static void eout(Ellipse const &e, double *o) { for (int i = 0; i < 9; ++i) o[i] = e.getTransformMatrix()(i / 3, i % 3);
  o[9] = e.getAlpha().asRadians(); o[10] = e.getBeta().asRadians(); o[11] = e.getGamma().asRadians(); o[12] = e.isEmpty(); o[13] = e.isFull(); }
extern "C" void h_ell(double const *a, double const *v, double *o) { Ellipse e = me(a); eout(e, o); o[14] = e.contains(U(v)); o[15] = e.isGreatCircle(); o[16] = e.isCircle(); }
extern "C" void h_ellctr(double const *a, double *o) { Ellipse e = me(a); UnitVector3d c = e.getCenter(), f = e.getF1(), g = e.getF2();
  for (int i = 0; i < 3; ++i) { o[i] = c(i); o[3 + i] = f(i); o[6 + i] = g(i); o[9 + i] = e.getTransformMatrix()(2, i); o[12 + i] = e.getTransformMatrix()(0, i); } o[15] = e.getGamma().asRadians(); }
extern "C" void h_ellcomp(double const *a, double const *v, double *o) { Ellipse e = me(a); Ellipse &r = e.complement(); eout(r, o); o[14] = e.contains(U(v)); o[15] = &r == &e; o[16] = e.complemented() == me(a); }
extern "C" long h_poly(long n, double const *p, double const *v) {
  if (n == 3) return ConvexPolygon(U(p), U(p + 3), U(p + 6)).contains(U(v));
  return ConvexPolygon(U(p), U(p + 3), U(p + 6), U(p + 9)).contains(U(v)); }
'''
SLACK = F(1, 10**6)
E_, F_, P_, N_ = 0, 1, 2, 3


def run(chk):
    prog = Program(build.build_ir(HARNESS, 'C18', passes=None))
    X = Ctx()
    X.prog = prog
    X.mm = std_minmax(prog)
    kinds = (E_, F_, P_, N_)
    angles = ('same', 'mid', 'anti')
    jobs = [('pair', f, g) for f in ('pred', 'clip', 'expand', 'clipped', 'expanded') for g in angles]
    jobs += [('selfop', f) for f in ('clipself', 'expandself')]
    jobs += [('point', f, g) for f in ('clippt', 'expandpt', 'clippedpt', 'expandedpt') for g in angles]
    jobs += [('pt',), ('dilate',), ('complement',), ('area',)]
    jobs += [('ellmake', i, j) for i in range(3) for j in range(9)] + [('ellfoci', i) for i in range(6)] + [('elltrivial',), ('ellcomp',), ('ellctr',)]
    jobs += [('poly', n) for n in (3, 4)]

    def one(c, it):
        globals()['do_' + it[0]](c, X, *it[1:])
    parallel(chk, jobs, one)
    for r, n in (('circle-predicates', 50), ('circle-union', 50), ('circle-intersection', 50), ('ellipse-membership', 50), ('polygon-membership', 30)):
        chk.need(r, n)


# ---- stubs ----------------------------------------------------------------------
def scl(m, a):
    """squared chord length of an opening angle, as decided separately (C16)"""
    a = a[0]
    if isinstance(a, float) and a != a:
        return a
    s = sgn(m, a)
    if s <= {-1}:
        return -1.0
    if s <= {0}:
        return 0.0
    t = sgn(m, sub(a, PI))
    if t <= {0, 1}:
        return 4.0
    v = m.fn('scl', P(a), lo=-1, hi=4)
    if s <= {0, 1}:
        m.learn(v, {1} if s <= {1} else {0, 1})
        if t <= {-1}:
            m.learn(v.add(P(-4)), {-1})
    return v


class Geom:
    """circle centres c at angle 0, x at angle cc on the great circle z = 0"""

    def __init__(self, kind):
        self.kind = kind
        if kind == 'same':
            self.cc, self.x = P(0), [1.0, 0.0, 0.0]
        elif kind == 'anti':
            self.cc, self.x = P(PI), [-1.0, 0.0, 0.0]
        else:
            self.cc, self.x = sym('cc', TINY, FPI - TINY), None
        self.c = [1.0, 0.0, 0.0]

    def start(self, m):
        if self.kind == 'mid':
            C, S = m.fn('cos', self.cc), m.fn('sin', self.cc)
            m.learn(C.add(P(-1)), {-1})
            m.learn(C.add(P(1)), {1})
            m.learn(S, {1})
            self.x = [C, S, 0.0]

    def angle_of(self, m, v):
        """position of a vector on the great circle, or None"""
        v = [P(z) for z in v]
        if v[2].t:
            return None
        for w, t in ((self.c, P(0)), (self.x, self.cc)):
            if all(not sub(p, q).t for p, q in zip(v, w)):
                return t
        if v[0].is_const() and v[1].is_const():
            import math
            return P(math.atan2(float(v[1].cval()), float(v[0].cval())))
        for sg in (1, -1):
            b = v[1].scale(sg).single_atom()
            if b is not None and b.kind == 'sin':
                t = b.args[0]
                if not sub(v[0], mathfn(m, 'cos', t)).t:
                    return t.scale(sg)
        return None

    def stubs(self, X):
        def same(m, u, w):
            return all(not sub(p, q).t for p, q in zip(u, w))

        def ang(m, a):
            u, w = lds(m, a[-2], 3), lds(m, a[-1], 3)
            if same(m, u, w):
                v = P(0)
            else:
                p, q = self.angle_of(m, u), self.angle_of(m, w)
                if p is not None and q is not None and not p.t:
                    v = q
                elif p is not None and q is not None and not q.t:
                    v = p
                else:
                    v = m.fn('angle', *[P(z) for z in u + w], lo=0, hi=FPI)
            m.store(a[0], v, ['d'], 8)

        def orth(m, a):
            u, w = lds(m, a[1], 3), lds(m, a[2], 3)
            p, q = self.angle_of(m, u), self.angle_of(m, w)
            z = 1.0
            if p is not None and q is not None:
                s = sgn(m, sub(q, p))
                z = 1.0 if s <= {0, 1} else -1.0 if s <= {0, -1} else None
            else:
                z = None
            r = [0.0, 0.0, z] if z is not None else [m.fn('orth' + k, *[P(y) for y in u + w], lo=-1, hi=1) for k in 'xyz']
            for i in range(3):
                m.store(Ptr(a[0].obj, a[0].off + 8 * i), r[i], ['d'], 8)

        st = stub_map(X.prog, {r'NormalizedAngle::NormalizedAngle\(lsst::sphgeom::Vector3d const&': ang,
                               r'UnitVector3d::orthogonalTo\(lsst::sphgeom::Vector3d const&, lsst::sphgeom::Vector3d const&\)': orth,
                               r'Circle::squaredChordLengthFor\(': scl}, required=True)
        st.update(norm_stub(X))
        return st


def norm_stub(X):
    return stub_map(X.prog, {r'Vector3d::normalize\(\)': normalize})


def pyth(m, p):
    """rewrite sin^2 as 1 - cos^2"""
    p = P(p)
    for _ in range(8):
        hit = None
        for k in p.t:
            for a, e in k:
                if a.kind == 'sin' and e >= 2:
                    hit = (k, a, e)
        if hit is None:
            return p
        k, a, e = hit
        co = p.t[k]
        rest = {}
        for b, f in k:
            if b is not a:
                rest[b] = f
        if e > 2:
            rest[a] = e - 2
        mono = Poly({tuple(sorted(rest.items(), key=lambda z: z[0].id)): Fraction(1)})
        cs = mathfn(m, 'cos', a.args[0])
        one = P(1).add(P(cs).mul(P(cs)), -1)
        p = Poly({x: y for x, y in p.t.items() if x != k}).add(mono.mul(one).scale(co))
    return p


def normalize(m, a):
    """divide by the norm, which is 1 for a unit vector, a number for a constant one, and otherwise an unknown"""
    v = [P(z) for z in lds(m, a[0], 3)]
    n2 = P(0)
    for z in v:
        n2 = n2.add(z.mul(z))
    n2 = pyth(m, n2)
    if n2.is_const():
        import math
        c = float(n2.cval())
        if c == 0:
            raise Infeasible()
        n = math.sqrt(c)
        if abs(n - 1) > 1e-12:
            v = [z.scale(F(1) / F(n)) if not z.is_const() else P(float(z.cval()) / n) for z in v]
    else:
        n = mathfn(m, 'sqrt', n2)
        one = m.fn('recip', P(n), lo=0)
        v = [z.mul(one) for z in v]
    for i in range(3):
        m.store(Ptr(a[0].obj, a[0].off + 8 * i), v[i] if not v[i].is_const() else float(v[i].cval()), ['d'], 8)
    return n


def circ(kind, cen, a):
    return list(cen) + [a, float(kind)]


def rad(kind, name):
    return {P_: P(0), N_: sym(name, TINY, FPI - TINY)}.get(kind)


# ---- two circles ----------------------------------------------------------------
def fname(f):
    return {'pred': r'Circle::contains\(lsst::sphgeom::Circle', 'clip': r'Circle::clipTo\(lsst::sphgeom::Circle', 'expand': r'Circle::expandTo\(lsst::sphgeom::Circle',
            'clippt': r'Circle::clipTo\(lsst::sphgeom::UnitV', 'expandpt': r'Circle::expandTo\(lsst::sphgeom::UnitV'}[f]


NAMES = ['an empty circle', 'a full circle', 'a point', 'a circle']


def state(m, G, o):
    """(kind, centre angle, radius, consistent)"""
    cen, s, a = o[:3], o[3], o[4]
    if not isnum(s):
        return E_, None, None, True
    ss = sgn(m, s)
    if ss <= {-1}:
        return E_, None, None, sgn(m, a) <= {-1}
    if sgn(m, sub(s, 4)) <= {0, 1}:
        return F_, None, None, ge(m, a, PI)
    want = scl(m, [a])
    return N_, G.angle_of(m, cen), P(a), not sub(want, s).t


def do_pair(c, X, f, gk):
    base = {'clipped': 'clip', 'expanded': 'expand'}.get(f, f)
    l = loc_of(X.prog, fname(base))
    for ka in (E_, F_, P_, N_):
        for kb in (E_, F_, P_, N_):
            G = Geom(gk)
            a, b = rad(ka, 'a'), rad(kb, 'b')

            def go(m):
                G.start(m)
                return call_out(m, 'h_' + f, [buf(m, circ(ka, G.c, a if ka == N_ else 0.0)), buf(m, circ(kb, G.x, b if kb == N_ else 0.0))], 6)
            st = G.stubs(X)
            key = '%s:%d%d:%s' % (f, ka, kb, gk)
            for R in ex(c, X, go, st, key, l):
                judge = {'pred': judge_pred, 'clip': judge_clip, 'expand': judge_expand}[base]
                judge(c, R, G, ka, kb, a, b, R.value, l, key)


def do_selfop(c, X, f):
    base = f[:-4]
    l = loc_of(X.prog, fname(base))
    for ka in (E_, F_, P_, N_):
        G = Geom('same')
        a = rad(ka, 'a')

        def go(m):
            G.start(m)
            v = buf(m, circ(ka, G.c, a if ka == N_ else 0.0))
            return call_out(m, 'h_' + f, [v, v], 6)
        for R in ex(c, X, go, G.stubs(X), f, l):
            {'clip': judge_clip, 'expand': judge_expand}[base](c, R, G, ka, ka, a, a, R.value, l, '%s:%d' % (f, ka))


def judge_pred(c, R, G, ka, kb, a, b, o, l, key):
    m, cc = R.m, G.cc
    con, dis, inter, wit, eq, ne = [float(P(z).cval()) for z in o]

    def bad(what):
        return lambda: '%s at angle 0 and %s at angle %s, opening angles %s and %s: %s; %s' % (NAMES[ka], NAMES[kb], cc, a, b, what, R.path(6))
    if kb == E_ or ka == F_:
        okc = con == 1
    elif ka == E_ or kb == F_:
        okc = con == 0
    elif con:
        okc = ge(m, a, cc.add(b))
    else:
        okc = ge(m, cc.add(b).add(P(SLACK)), a)
    c.expect(okc, 'circle-predicates', key + ':contains', l, bad('contains is %d' % con))
    c.expect(wit == con, 'circle-predicates', key + ':within', l, bad('isWithin is %d, contains %d' % (wit, con)))
    if ka == E_ or kb == E_:
        okd = dis == 1
    elif ka == F_ or kb == F_:
        okd = dis == 0
    elif dis:
        okd = sgn(m, sub(cc, a.add(b))) <= {1}
    else:
        okd = ge(m, a.add(b).add(P(SLACK)), cc)
    c.expect(okd, 'circle-predicates', key + ':disjoint', l, bad('isDisjointFrom is %d' % dis))
    c.expect(inter == 1 - dis, 'circle-predicates', key + ':intersects', l, bad('intersects is %d, isDisjointFrom %d' % (inter, dis)))
    same = G.kind == 'same'
    if ka in (E_, F_) or kb in (E_, F_):
        oke = eq == (ka == kb)
    elif not same:
        oke = eq == 0
    elif eq:
        oke = not sub(m.fn('scl', a) if ka == N_ else P(0), m.fn('scl', b) if kb == N_ else P(0)).t or sgn(m, sub(a, b)) <= {0}
    else:
        oke = ka != kb or ka == N_
    c.expect(oke and ne == 1 - eq, 'circle-predicates', key + ':equal', l, bad('== is %d, != is %d' % (eq, ne)))


def covers(m, t, r, u, q, margin):
    d = sub(u, t)
    return ge(m, r, d.add(q).add(P(margin))) and ge(m, r, d.neg().add(q).add(P(margin)))


def judge_expand(c, R, G, ka, kb, a, b, o, l, key, pt=False):
    m, cc = R.m, G.cc
    k, t, r, cons = state(m, G, o)

    def bad(what):
        return lambda: 'union of %s at angle 0 and %s at angle %s, opening angles %s and %s: %s (%s); %s' % (NAMES[ka], NAMES[kb], cc, a, b, what, o[:5], R.path(7))
    c.expect(P(o[5]) == P(1), 'in-place-and-copy', key + ':ref', l, bad('wrong object'))
    if not c.expect(cons, 'circle-invariant', key + ':cons', l, bad('squared chord length does not belong to the opening angle')):
        return
    if ka == F_ or kb == F_:
        c.expect(k == F_, 'circle-union', key + ':full', l, bad('is not full'))
        return
    if ka == E_ or kb == E_:
        if ka == kb:
            c.expect(k == E_, 'circle-union', key + ':empty', l, bad('is not empty'))
        else:
            w, q = (cc, b) if ka == E_ else (P(0), a)
            c.expect(k == N_ and t is not None and not sub(t, w).t and not sub(r, q).t, 'circle-union', key + ':identity', l, bad('is not the other operand'))
        return
    if k == E_:
        c.fail('circle-union', key + ':lost', l, bad('is empty')())
        return
    half = cc.add(a).add(b).scale(F(1, 2))
    top = minmax(m, True, minmax(m, True, half, a), b)
    if k == F_:
        c.expect(ge(m, P(top).add(P(SLACK)), PI), 'circle-union', key + ':toofull', l, bad('is full'))
        return
    if t is None:
        c.fail('circle-union', key + ':centre', l, bad('the centre is not on the great circle through the centres')())
        return
    orig = (not t.t and not sub(r, a).t) or (not sub(t, cc).t and not sub(r, b).t)
    mg = 0 if orig else TINY
    c.expect(covers(m, t, r, P(0), a, mg) and covers(m, t, r, cc, b, mg), 'circle-union', key + ':covers', l, bad('a circle at %s with opening angle %s does not cover both' % (t, r)))
    c.expect(any(ge(m, P(z).add(P(SLACK)), r) for z in (half, a, b, top)), 'circle-union', key + ':minimal', l, bad('opening angle %s is larger than needed' % (r,)))


def judge_clip(c, R, G, ka, kb, a, b, o, l, key):
    m, cc = R.m, G.cc
    k, t, r, cons = state(m, G, o)

    def bad(what):
        return lambda: 'intersection of %s at angle 0 and %s at angle %s, opening angles %s and %s: %s (%s); %s' % (NAMES[ka], NAMES[kb], cc, a, b, what, o[:5], R.path(7))
    c.expect(P(o[5]) == P(1), 'in-place-and-copy', key + ':ref', l, bad('wrong object'))
    if not c.expect(cons, 'circle-invariant', key + ':cons', l, bad('squared chord length does not belong to the opening angle')):
        return
    if ka == E_ or kb == E_:
        c.expect(k == E_, 'circle-intersection', key + ':empty', l, bad('is not empty'))
        return
    if ka == F_ or kb == F_:
        if ka == kb:
            c.expect(k == F_, 'circle-intersection', key + ':full', l, bad('is not full'))
        else:
            w, q = (cc, b) if ka == F_ else (P(0), a)
            c.expect(k == N_ and t is not None and not sub(t, w).t and not sub(r, q).t, 'circle-intersection', key + ':identity', l, bad('is not the other operand'))
        return
    gap = sub(cc, a.add(b))
    if k == E_:
        c.expect(sgn(m, gap) <= {1}, 'circle-intersection', key + ':lost', l, bad('is empty'))
        return
    if k == F_:
        c.fail('circle-intersection', key + ':grew', l, bad('is full')())
        return
    c.expect(ge(m, P(SLACK), gap), 'circle-intersection', key + ':disjoint', l, bad('is not empty'))
    orig = t is not None and ((not t.t and not sub(r, a).t) or (not sub(t, cc).t and not sub(r, b).t))
    c.expect(orig, 'circle-intersection', key + ':covers', l, bad('a circle at %s with opening angle %s need not cover the intersection' % (t, r)))
    if orig:
        c.expect(ge(m, a.add(P(SLACK)), r) and ge(m, b.add(P(SLACK)), r), 'circle-intersection', key + ':smaller', l, bad('opening angle %s is not the smaller one' % (r,)))


# ---- circle and point -----------------------------------------------------------
def do_point(c, X, f, gk):
    base = {'clippedpt': 'clippt', 'expandedpt': 'expandpt'}.get(f, f)
    l = loc_of(X.prog, fname(base))
    for ka in (E_, F_, P_, N_):
        G = Geom(gk)
        a = rad(ka, 'a')

        def go(m):
            G.start(m)
            if ka in (P_, N_) and gk != 'same':
                # squared distance and squared chord length order like the angles
                d = P(0)
                for p, q in zip(G.x, G.c):
                    e = sub(p, q)
                    d = d.add(e.mul(e))
                s = P(scl(m, [a]))
                lab = m.choose(3, 'cc vs a') - 1
                m.learn(sub(G.cc, a), {lab})
                m.learn(sub(d, s), {lab})
                m.learn(pyth(m, sub(d, s)), {lab})
            return call_out(m, 'h_' + f, [buf(m, circ(ka, G.c, a if ka == N_ else 0.0)), buf(m, G.x)], 6)
        key = '%s:%d:%s' % (f, ka, gk)
        for R in ex(c, X, go, G.stubs(X), key, l):
            m, o = R.m, R.value
            if base == 'expandpt':
                judge_expand(c, R, G, ka, P_, a, P(0), o, l, key, True)
                continue
            k, t, r, cons = state(m, G, o)
            w = 'clipping %s of opening angle %s to a point at angle %s gives %s' % (NAMES[ka], a, G.cc, o[:5])
            c.expect(P(o[5]) == P(1), 'in-place-and-copy', key + ':ref', l, w)
            isin = ka == F_ or ka != E_ and (gk == 'same' or sgn(m, sub(G.cc, a)) <= {0, -1})
            if isin:
                c.expect(k == N_ and cons and t is not None and not sub(t, G.cc).t and not r.t, 'circle-intersection', key + ':point', l, w)
            else:
                c.expect(k == E_, 'circle-intersection', key + ':empty', l, w)


def do_pt(c, X):
    """membership of a point is a comparison of squared chord lengths"""
    l = loc_of(X.prog, r'Circle::contains\(lsst::sphgeom::UnitVector3d')
    cen, v = v3('c'), v3('v')
    d = P(0)
    for p, q in zip(v, cen):
        e = sub(p, q)
        d = d.add(e.mul(e))
    for k in (E_, F_, P_, N_, 4, 5):
        a = sym('a', TINY, FPI - TINY)
        def go(m):
            # squared distances are not negative
            m.learn(d, {0, 1})
            e = sub(v[2], 1)
            m.learn(P(v[0]).mul(P(v[0])).add(P(v[1]).mul(P(v[1]))).add(e.mul(e)), {0, 1})
            return call_out(m, 'h_pt', [buf(m, circ(k, cen, a)), buf(m, v)], 5)
        for R in ex(c, X, go, stub_map(X.prog, {r'Circle::squaredChordLengthFor\(': scl}), 'point', l):
            m = R.m
            con, dis, inter, wit, rel = [float(P(z).cval()) for z in R.value]
            if k in (E_, 4):
                want = 0
            elif k in (F_, 5):
                want = 1
            else:
                s = m.fn('scl', a) if k == N_ else P(0)
                sg = sgn(m, sub(d, s))
                want = 1 if sg <= {0, -1} else 0 if sg <= {1} else None
            empty = k in (E_, 4)
            c.expect(want is not None and con == want, 'circle-membership', 'pt:%d' % k, l, lambda: 'contains is %d for squared distance %s; %s' % (con, d, R.path(4)))
            c.expect(dis == 1 - con and inter == con and wit == empty, 'circle-membership', 'pt:derived:%d' % k, l, lambda: 'contains %d, isDisjointFrom %d, intersects %d, isWithin %d' % (con, dis, inter, wit))
            wr = CONTAINS if con else DISJOINT | (WITHIN if empty else 0)
            c.expect(int(rel) == wr, 'circle-membership', 'pt:relate:%d' % k, l, lambda: 'contains %d, relate %d' % (con, rel))


def do_dilate(c, X):
    l = loc_of(X.prog, r'Circle::dilateBy')
    G = Geom('same')
    st = stub_map(X.prog, {r'Circle::squaredChordLengthFor\(': scl})
    for f, sg in (('dil', 1), ('dilated', 1), ('ero', -1), ('eroded', -1)):
        for ka in (E_, F_, P_, N_):
            a = rad(ka, 'a')
            for rn, r in (('neg', sym('r', F(-4), -TINY)), ('zero', 0.0), ('pos', sym('r', TINY, F(4))), ('nan', float('nan'))):
                for R in ex(c, X, lambda m: call_out(m, 'h_' + f, [buf(m, circ(ka, G.c, a if ka == N_ else 0.0)), r], 6), st, 'dilate', l):
                    m, o = R.m, R.value
                    w = lambda: '%s of opening angle %s, %s(%s) gives %s; %s' % (NAMES[ka], a, f, r, o[:5], R.path(4))
                    key = '%s:%d:%s' % (f, ka, rn)
                    c.expect(P(o[5]) == P(1), 'in-place-and-copy', key + ':ref', l, w)
                    if ka in (E_, F_) or rn in ('zero', 'nan'):
                        k, t, q, cons = state(m, G, o)
                        c.expect(cons and k == (N_ if ka == P_ else ka) and (k != N_ or (t is not None and not t.t and not sub(q, a).t)), 'circle-dilation', key, l, w)
                        continue
                    q = P(a).add(P(r).scale(sg))
                    c.expect(isnum(o[4]) and not sub(o[4], q).t and not sub(o[3], scl(m, [q])).t and G.angle_of(m, o[:3]) == P(0), 'circle-dilation', key, l, w)


def do_complement(c, X):
    l = loc_of(X.prog, r'Circle::complement\(')
    cen = v3('c')
    st = stub_map(X.prog, {r'Circle::squaredChordLengthFor\(': scl})
    for f in ('comp', 'complemented'):
        for ka in (E_, F_, P_, N_):
            a = rad(ka, 'a')
            for R in ex(c, X, lambda m: call_out(m, 'h_' + f, [buf(m, circ(ka, cen, a if ka == N_ else 0.0))], 6), st, 'complement', l):
                m, o = R.m, R.value
                w = lambda: 'the complement of %s at %s of opening angle %s is %s; %s' % (NAMES[ka], cen, a, o[:5], R.path(4))
                key = '%s:%d' % (f, ka)
                c.expect(P(o[5]) == P(1), 'in-place-and-copy', key + ':ref', l, w)
                if ka == F_:
                    good = sgn(m, o[3]) <= {-1} and sgn(m, o[4]) <= {-1}
                elif ka in (E_, P_):
                    good = ge(m, o[3], 4) and ge(m, o[4], PI)
                else:
                    good = not sub(o[4], P(PI).add(a, -1)).t and not sub(o[3], P(4).add(m.fn('scl', a), -1)).t and all(not P(x).add(P(y)).t for x, y in zip(o, cen))
                c.expect(good, 'circle-complement', key, l, w)


def do_area(c, X):
    l = loc_of(X.prog, r'Circle::getArea')
    st = stub_map(X.prog, {r'Circle::squaredChordLengthFor\(': scl})
    for k in (E_, F_, P_, N_, 4, 5):
        a = sym('a', TINY, FPI - TINY)
        for R in ex(c, X, lambda m: m.call('h_area', [buf(m, circ(k, v3('c'), a))]), st, 'area', l):
            m, v = R.m, R.value
            want = {E_: P(0), 4: P(0), P_: P(0), F_: P(PI).scale(4), 5: P(PI).scale(4)}.get(k)
            if want is None:
                want = m.fn('scl', a).scale(FPI)
            c.expect(isnum(v) and abs_small(m, sub(v, want)), 'circle-area', 'area:%d' % k, l, lambda: 'area %s instead of %s' % (v, want))


def abs_small(m, d, eps=F(1, 10**12)):
    return sgn(m, d.add(P(-eps))) <= {-1} and sgn(m, d.add(P(eps))) <= {1}


# ---- ellipses -------------------------------------------------------------------
def dot(u, w):
    s = P(0)
    for p, q in zip(u, w):
        s = s.add(P(p).mul(P(q)))
    return s


CENTRES = [([1.0, 0.0, 0.0], [0.0, 0.0, 1.0], [0.0, 1.0, 0.0]),
           ([0.0, -1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 0.0, 0.0]),
           ([0.0, 0.0, 1.0], [-1.0, 0.0, 0.0], [0.0, 1.0, 0.0])]
HP = F(PI / 2)
SMALL, TINYR, BIG, MID = (F(1, 2), F(1)), (F(1, 10), F(1, 3)), (F(5, 2), F(3)), (F(8, 5), F(19, 10))


def membership(c, R, e, v, key, l, axes, always=None):
    """axes: list of acceptable [(direction, angle atom), (direction, angle)] and the centre; contains must be the ellipse inequality"""
    m = R.m
    con = float(P(e[14]).cval())
    if always is not None:
        c.expect(con == always, 'ellipse-membership', key, l, lambda: 'contains is %d; %s' % (con, R.path(8)))
        return
    cen, forms, big = axes
    z = dot(v, cen)
    for (d0, t0), (d1, t1) in forms:
        x, y = dot(v, d0), dot(v, d1)
        q = x.mul(x).mul(P(t0).mul(P(t0))).add(y.mul(y).mul(P(t1).mul(P(t1)))).add(z.mul(z), -1)
        sz, sq = sgn(m, z), sgn(m, q)
        if big:
            good = (sz <= {0, 1} or sq <= {0, 1}) if con else (sz <= {-1} and sq <= {-1})
        else:
            good = (sz <= {0, 1} and sq <= {0, -1}) if con else (sz <= {-1} or sq <= {1})
        if good:
            c.ok('ellipse-membership')
            return
    c.fail('ellipse-membership', key, l, 'contains is %d, which the equation of the ellipse does not entail; %s' % (con, R.path(10)))


def tan_(m, t):
    return mathfn(m, 'tan', P(t))


def cosines(m, *angles):
    """cosines on either side of pi/2"""
    for a in angles:
        if isinstance(a, Poly):
            lo, hi = m.rng(a)
            if hi < HP or lo > HP:
                m.learn(mathfn(m, 'cos', a), {1 if hi < HP else -1})


def acos_stub(m, a):
    """half the angle between the foci, acos(cos A / cos B), is less than A and pi - A when |cos A| < |cos B| < 1"""
    from c_C16 import leaves
    v = mathfn(m, 'acos', P(a[0]))
    for y in leaves(a[0]):
        c = [x for x in y.all_atoms() if x.kind == 'cos']
        for A in c:
            for B in c:
                if A is B or y.mul(mathfn(m, 'cos', B.args[0])) != P(mathfn(m, 'cos', A.args[0])):
                    continue
                (l0, h0), (l1, h1) = m.rng(A.args[0]), m.rng(B.args[0])
                if h1 < l0 < h0 < HP or HP < l0 < h0 < l1 and h1 < FPI:
                    m.learn(sub(v, A.args[0]), {-1})
                    m.learn(P(v).add(A.args[0]).add(P(-FPI)), {-1})
    return v


def do_ellmake(c, X, ci, case):
    l = loc_of(X.prog, r'Ellipse::Ellipse\(lsst::sphgeom::UnitVector3d const&, lsst::sphgeom::Angle, lsst::sphgeom::Angle, lsst::sphgeom::Angle\)')
    lc = loc_of(X.prog, r'Ellipse::contains\(lsst::sphgeom::UnitVector3d')
    cen, N, E = CENTRES[ci]
    A, B = [(SMALL, TINYR), (TINYR, SMALL), (BIG, MID), (MID, BIG), (SMALL, None), (BIG, None), (SMALL, 'swapless'), (BIG, 'swapless'), None][case]\
        if case < 8 else (None, None)
    if case in (6, 7):
        return
    om = sym('omega', F(-3), F(3))
    if case == 8:
        al = be = PI / 2
    else:
        al = sym('alpha', *A)
        be = sym('beta', *B) if B else al
    v = [sym('p.' + k, F(-2), F(2)) for k in 'xyz']
    st = dict(norm_stub(X), acos=acos_stub)
    key = 'ellipse:%d:%d' % (ci, case)

    def go(m):
        cosines(m, al, be)
        return call_out(m, 'h_ell', [buf(m, list(cen) + [al, be, om] + [0.0] * 9 + [4.0]), buf(m, v)], 17)
    for R in ex(c, X, go, st, key, l, {'div0': True}):
        m, o = R.m, R.value
        S = [[P(z) for z in o[3 * i:3 * i + 3]] for i in range(3)]
        w = lambda: 'centre %s, semi-axes %s, %s, orientation %s: transform %s, alpha %s, beta %s; %s' % (cen, al, be, om, o[:9], o[9], o[10], R.path(5))
        oa, ob = P(o[9]), P(o[10])
        near = lambda p, q: abs_small(m, sub(p, q))
        swapped = near(oa, be) and near(ob, al)
        c.expect((near(oa, al) and near(ob, be)) or swapped, 'ellipse-parameters', key + ':axes', l, w)
        c.expect(all(not sub(x, y).t for x, y in zip(S[2], cen)), 'ellipse-parameters', key + ':centre', l, w)
        c.expect(P(o[12]) == P(0) and P(o[13]) == P(0), 'ellipse-parameters', key + ':empty', l, w)
        c.expect(P(o[15]) == P(case == 8), 'ellipse-parameters', key + ':greatcircle', l, w)
        if B is not None:
            swapped = not near(oa, al)
            want = (A is SMALL) == (ge(m, oa, ob)) if False else (ge(m, oa, ob) if A in (SMALL, TINYR) else ge(m, ob, oa))
            c.expect(want, 'ellipse-parameters', key + ':major', l, w)
        ta, tb = tan_(m, sub(al, PI / 2)), tan_(m, sub(be, PI / 2))
        forms = []
        for th, which in ((P(om), 0), (P(om).add(P(PI / 2)), 1), (P(om).add(P(PI / 2), -1), 1)):
            C, Sn = mathfn(m, 'cos', th), mathfn(m, 'sin', th)
            d0 = [P(n).mul(P(C)).add(P(e).mul(P(Sn))) for n, e in zip(N, E)]
            d1 = [P(e).mul(P(C)).add(P(n).mul(P(Sn)), -1) for n, e in zip(N, E)]
            forms.append([(d0, ta), (d1, tb)] if which == 0 else [(d0, tb), (d1, ta)])
        if B is None:
            # a circle: |v x c|^2 tan^2
            basis = [[F(i == j) for i in range(3)] for j in range(3)]
            perp = [b for b in basis if not dot(b, cen).t]
            forms = [[(perp[0], ta), (perp[1], ta)]]
        membership(c, R, o, v, key + ':contains', lc, (cen, forms, case in (2, 3, 5)) if case != 8 else (cen, [[([0, 0, 0], 0), ([0, 0, 0], 0)]], True), None) \
            if case != 8 else hemisphere(c, R, o, v, cen, key, lc)


def hemisphere(c, R, o, v, cen, key, l):
    m = R.m
    con = float(P(o[14]).cval())
    s = sgn(m, dot(v, cen))
    c.expect(s <= ({0, 1} if con else {-1}), 'ellipse-membership', key + ':hemisphere', l, lambda: 'contains is %d in a hemisphere; %s' % (con, R.path(8)))


def do_ellfoci(c, X, case):
    """foci (cos g, +-sin g, 0) rotated so that their difference and sum are along axes"""
    l = loc_of(X.prog, r'Ellipse::Ellipse\(lsst::sphgeom::UnitVector3d const&, lsst::sphgeom::UnitVector3d const&')
    lc = loc_of(X.prog, r'Ellipse::contains\(lsst::sphgeom::UnitVector3d')
    f1, f2 = [([0.8, 0.6, 0.0], [0.8, -0.6, 0.0]), ([0.6, 0.0, -0.8], [-0.6, 0.0, -0.8])][case % 2]
    h = [math_acos(0.8), math_acos(0.8)][0] if case % 2 == 0 else math_acos(0.8)
    g = F(h)
    al = sym('alpha', *[(g + TINY, HP - TINY), (HP + TINY, F(PI) - g - TINY), None][case // 2]) if case < 4 else None
    al2 = [sym('alpha', F(0), g - TINY), sym('alpha', F(PI) - g + TINY, F(PI))][case % 2] if case >= 4 else al
    v = [sym('p.' + k, F(-2), F(2)) for k in 'xyz']

    def ang(m, a):
        m.store(a[0], 2 * h, ['d'], 8)
    st = norm_stub(X)
    st.update(stub_map(X.prog, {r'NormalizedAngle::NormalizedAngle\(lsst::sphgeom::Vector3d const&': ang}))
    key = 'foci:%d' % case

    def go(m):
        return call_out(m, 'h_ell', [buf(m, f1 + [al2, 0.0, 0.0] + f2 + [0.0] * 6 + [9.0]), buf(m, v)], 17)
    for R in ex(c, X, go, st, key, l, {'div0': True}):
        m, o = R.m, R.value
        w = lambda: 'foci %s, %s, semi-axis %s: transform %s, alpha %s, beta %s, gamma %s, empty %s, full %s; %s' % (f1, f2, al2, o[:9], o[9], o[10], o[11], o[12], o[13], R.path(6))
        if case >= 4:
            c.expect((P(o[12]) == P(1), P(o[13]) == P(1)) == (case == 4, case == 5), 'ellipse-parameters', key + ':trivial', l, w)
            membership(c, R, o, v, key + ':contains', lc, None, float(case == 5))
            continue
        c.expect(P(o[12]) == P(0) and P(o[13]) == P(0) and abs_small(m, sub(o[9], al)) and abs_small(m, sub(o[11], h)), 'ellipse-parameters', key + ':axes', l, w)
        S = [[P(z) for z in o[3 * i:3 * i + 3]] for i in range(3)]
        ok = True
        for row, ax, sign in ((0, 1 if case % 2 == 0 else 0, 1), (1, 2 if case % 2 == 0 else 1, 0), (2, 0 if case % 2 == 0 else 2, 1 if case % 2 == 0 else -1)):
            for j in range(3):
                e = S[row][j]
                x = e.cval() if e.is_const() else None
                ok = ok and x is not None and (abs(abs(x) - 1) < F(1, 10**9) and (not sign or x * sign > 0) if j == ax else abs(x) < F(1, 10**9))
        c.expect(ok, 'ellipse-parameters', key + ':frame', l, w)
        # cos beta cos gamma = cos alpha, unless clamped
        q = P(mathfn(m, 'cos', P(al))).scale(F(1) / F(math_cos(h)))
        beta = P(o[10])
        good = False
        for k in beta.t:
            if len(k) == 1 and k[0][1] == 1 and k[0][0].kind == 'acos' and beta.t[k] == 1:
                z = k[0][0].args[0]
                lv = []
                from c_C16 import leaves
                for y in leaves(z):
                    lv.append(y)
                rest = Poly({x: y for x, y in beta.t.items() if x != k})
                good = abs_small(m, rest) and any(abs_small(m, sub(y, q)) for y in lv) and all(abs_small(m, sub(y, q)) or y.is_const() and abs(y.cval()) == 1 for y in lv)
        clamp = abs_small(m, sub(beta, al))
        c.expect(good or clamp, 'ellipse-parameters', key + ':beta', l, w)
        d0, d1, cen = ([0, 1, 0], [0, 0, 1], [1, 0, 0]) if case % 2 == 0 else ([1, 0, 0], [0, 1, 0], [0, 0, -1])
        con = float(P(o[14]).cval())
        membership(c, R, o, v, key + ':contains', lc, (cen, [[(d0, tan_(m, sub(o[9], PI / 2))), (d1, tan_(m, sub(o[10], PI / 2)))]], case // 2 == 1))


def math_acos(x):
    import math
    return math.acos(x)


def math_cos(x):
    import math
    return math.cos(x)


def do_elltrivial(c, X):
    l = loc_of(X.prog, r'Ellipse::contains\(lsst::sphgeom::UnitVector3d')
    pts = [[0.0, 0.0, 1.0], [0.0, 0.0, -1.0], [0.0, 0.6, 0.8], [0.0, 0.6, -0.8], [0.6, 0.0, 0.8], [0.6, 0.0, -0.8], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.36, 0.48, 0.8], [0.36, 0.48, -0.8], [-0.8, 0.6, 0.0]]
    made = [(0, [0.0] * 15, 0), (1, [0.0] * 15, 1), (2, [0.6, 0.0, 0.8, -0.5] + [0.0] * 11, 0), (2, [0.6, 0.0, 0.8, PI] + [0.0] * 11, 1), (2, [0.6, 0.0, 0.8, 4.0] + [0.0] * 11, 1),
            (3, [0.6, 0.0, 0.8, -1.0] + [0.0] * 11, 0), (3, [0.6, 0.0, 0.8, 3.5] + [0.0] * 11, 1), (4, [0.6, 0.0, 0.8, -0.1, 0.4, 0.0] + [0.0] * 9, 0), (4, [0.6, 0.0, 0.8, 3.3, 2.0, 0.0] + [0.0] * 9, 1),
            (5, [0.6, 0.0, 0.8, 2.0, 0.0, 0.0, -0.6, 0.0, -0.8] + [0.0] * 6, 1), (5, [0.6, 0.0, 0.8, 1.0, 0.0, 0.0, -0.6, 0.0, -0.8] + [0.0] * 6, 0)]
    for k, p, full in made:
        for v in pts:
            for comp in (0, 1):
                f = 'h_ellcomp' if comp else 'h_ell'
                for R in ex(c, X, lambda m: call_out(m, f, [buf(m, p + [float(k)]), buf(m, v)], 17), {}, 'trivial', l, {}):
                    o = [float(P(z).cval()) if isnum(z) else z for z in R.value[:17]] if all(not isinstance(z, Poly) or z.is_const() for z in R.value) else None
                    want = full ^ comp
                    w = lambda: 'the %s ellipse made from %s %s %s: contains(%s) is %s, empty %s, full %s' % (('empty', 'full')[full], k, p, 'complemented' if comp else '', v, o and o[14], o and o[12], o and o[13])
                    c.expect(o is not None and o[14] == want and o[12] == 1 - want and o[13] == want, 'ellipse-trivial', 'trivial:%d:%d' % (k, comp), l, w)
                    if comp:
                        c.expect(o is not None and o[15] == 1 and o[16] == 1, 'ellipse-trivial', 'trivial:involution', l, lambda: 'complementing twice does not give the original back: %s' % (o,))


def do_ellcomp(c, X):
    """the complement has the opposite centre, complementary semi-axes and the complementary points"""
    l = loc_of(X.prog, r'Ellipse::complement\(')
    cen, N, E = CENTRES[0]
    om = 0.0
    for A, B, big in ((SMALL, TINYR, False), (MID, BIG, True)):
        al, be = sym('alpha', *A), sym('beta', *B)
        v = [sym('p.' + k, F(-2), F(2)) for k in 'xyz']
        def go(m):
            cosines(m, al, be)
            return call_out(m, 'h_ellcomp', [buf(m, list(cen) + [al, be, om] + [0.0] * 9 + [4.0]), buf(m, v)], 17)
        for R in ex(c, X, go, dict(norm_stub(X), acos=acos_stub), 'ellcomp', l, {'div0': True}):
            m, o = R.m, R.value
            w = lambda: 'complement of the ellipse with semi-axes %s, %s: %s; %s' % (al, be, o, R.path(5))
            c.expect(abs_small(m, P(o[9]).add(P(al)).add(P(-PI))) and abs_small(m, P(o[10]).add(P(be)).add(P(-PI))), 'ellipse-complement', 'ellcomp:axes', l, w)
            c.expect(all(not P(x).add(P(y)).t for x, y in zip(o[6:9], cen)), 'ellipse-complement', 'ellcomp:centre', l, w)
            c.expect(P(o[15]) == P(1) and P(o[16]) == P(1), 'ellipse-complement', 'ellcomp:involution', l, w)
            neg = [P(z).neg() for z in cen]
            ta, tb = tan_(m, sub(al, PI / 2)), tan_(m, sub(be, PI / 2))
            ta2, tb2 = tan_(m, P(PI / 2).add(al, -1)), tan_(m, P(PI / 2).add(be, -1))
            membership(c, R, o, v, 'ellcomp:contains', l, (neg, [[(N, ta), (E, tb)], [(N, ta2), (E, tb2)]], not big))


def do_ellctr(c, X):
    """getCenter is the last row of the transform; the foci lie at +-gamma from it in the plane of the first axis"""
    l = loc_of(X.prog, r'Ellipse::getCenter')
    cen = CENTRES[1][0]
    al, be = sym('alpha', *SMALL), sym('beta', *TINYR)
    def go(m):
        cosines(m, al, be)
        return call_out(m, 'h_ellctr', [buf(m, list(cen) + [al, be, 0.0] + [0.0] * 9 + [4.0])], 16)
    for R in ex(c, X, go, dict(norm_stub(X), acos=acos_stub), 'ellctr', l, {'div0': True}):
        m, o = R.m, R.value
        ctr, row2, row0, g = o[:3], o[9:12], o[12:15], P(o[15])
        C, Sn = P(mathfn(m, 'cos', g)), P(mathfn(m, 'sin', g))
        w = lambda: 'centre %s, foci %s and %s, transform rows %s, %s, gamma %s' % (ctr, o[3:6], o[6:9], row0, row2, g)
        c.expect(all(not sub(x, y).t for x, y in zip(ctr, row2)), 'ellipse-parameters', 'centre', l, w)
        for i, sg in ((3, 1), (6, -1)):
            good = True
            for j in range(3):
                want = C.mul(P(row2[j])).add(Sn.mul(P(row0[j])).scale(sg))
                d = pyth(m, sub(o[i + j], want))
                d2 = sub(subst_neg(m, P(o[i + j])), want)
                good = good and (not d.t or not d2.t)
            c.expect(good, 'ellipse-parameters', 'foci:%d' % i, l, w)


def subst_neg(m, p):
    """sin(-g) = -sin g, cos(-g) = cos g"""
    out = P(0)
    for k, co in p.t.items():
        x = P(co)
        for a, e in k:
            y = Poly.of(a)
            if a.kind in ('sin', 'cos') and any(z < 0 for z in a.args[0].t.values()):
                y = P(mathfn(m, a.kind, a.args[0].neg()))
                if a.kind == 'sin':
                    y = y.neg()
            for _ in range(e):
                x = x.mul(y)
        out = out.add(x)
    return out


# ---- polygons -------------------------------------------------------------------
def do_poly(c, X, n):
    l = loc_of(X.prog, r'ConvexPolygon::contains\(lsst::sphgeom::UnitVector3d')
    vs = [v3('v%d' % i) for i in range(n)]
    p = v3('p')
    asked = {}

    def who(m, a):
        x = lds(m, a, 3)
        for i, w in enumerate(vs + [p]):
            if all(not sub(y, z).t for y, z in zip(x, w)):
                return i
        return None

    def orient(m, a):
        t = [who(m, z) for z in a[:3]]
        if None in t or len(set(t)) < 3:
            return m.choose(3, 'orientation') - 1 if None in t else 0
        s = sorted(t)
        par = 1
        for i in range(3):
            for j in range(i + 1, 3):
                if t[i] > t[j]:
                    par = -par
        key = tuple(s)
        d = m.__dict__.setdefault('_o', {})
        if key not in d:
            d[key] = m.choose(3, 'orientation%s' % (key,)) - 1
        return d[key] * par & 0xffffffff
    st = stub_map(X.prog, {r'sphgeom::orientation\(': orient})

    def go(m):
        m.__dict__['_o'] = {}
        return m.call('h_poly', [n, buf(m, [z for w in vs for z in w]), buf(m, p)])
    for R in ex(c, X, go, st, 'poly', l):
        m = R.m
        d = m.__dict__['_o']
        con = int(R.value)
        sides = []
        for i in range(n):
            k = (i, (i + 1) % n, n)
            s = d.get(tuple(sorted(k)))
            if s is not None and (i + 1) % n < i:
                s = -s
            sides.append(s)
        neg = any(s == -1 for s in sides)
        if con:
            good = all(s is not None and s >= 0 for s in sides)
        else:
            good = neg
        c.expect(good, 'polygon-membership', 'poly:%d' % n, l, lambda: 'contains is %d with orientations %s relative to the edges (None: not asked); %s' % (con, sides, d))
