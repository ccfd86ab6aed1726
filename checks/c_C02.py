"""C02: algebra of (possibly wrapping) normalized angle intervals, decided over
every cyclic order type of the endpoints (0, 2*pi and NaN included)."""
import math
from common import *
from framework import parallel
from c_C01 import NAMES, rel as _  # noqa

EXPLANATION = (
    'Abstract interpretation of the linked LLVM IR of every public member of the normalized angle interval class over '
    'the finite domain of order types of the operand endpoints on [0, 2*pi] (each endpoint is NaN, exactly 0, exactly '
    '2*pi, or one of the ranked interior values, ties included). Comparison-only operations are decided for every input; '
    'operations that compare arc lengths are decided in a convex-polyhedra domain over the endpoint values (exact-real '
    'reading of additions and subtractions).')
ASSUMPTIONS = ['angles 0 and 2*pi are treated as the library represents them: distinct ends of [0, 2*pi]',
               'arc lengths are compared over the reals, not after rounding']
TWO_PI = 2 * math.pi
T = Fraction(TWO_PI)
HALF = Fraction(math.pi)


def harness():
    return '''
#include "lsst/sphgeom/NormalizedAngleInterval.h"
using namespace lsst::sphgeom;
typedef NormalizedAngleInterval I; typedef NormalizedAngle N;
static inline int R(Relationship r) { return ((r & CONTAINS) != 0 ? 1 : 0) + ((r & DISJOINT) != 0 ? 2 : 0) + ((r & WITHIN) != 0 ? 4 : 0); }
static inline I mk(double a, double b) { return I(N(a), N(b)); }
static inline void put(double *o, int i, I const &x) { o[2*i] = x.getA().asRadians(); o[2*i+1] = x.getB().asRadians(); }
extern "C" void h_pred(double a, double b, double c, double d, long *o) {
  I x = mk(a,b), y = mk(c,d);
  o[0] = x.contains(y); o[1] = x.isDisjointFrom(y); o[2] = x.intersects(y); o[3] = x.isWithin(y);
  o[4] = R(x.relate(y)); o[5] = (x == y); o[6] = (x != y); o[7] = x.isEmpty(); o[8] = x.isFull(); o[9] = x.wraps();
}
extern "C" void h_pt(double a, double b, double c, long *o) {
  I x = mk(a,b); N y(c);
  o[0] = x.contains(y); o[1] = x.isDisjointFrom(y); o[2] = x.intersects(y); o[3] = x.isWithin(y);
  o[4] = R(x.relate(y)); o[5] = (x == y); o[6] = (x != y); o[7] = x.isEmpty(); o[8] = x.isFull(); o[9] = x.wraps();
}
extern "C" void h_clip(double a, double b, double c, double d, double *o) {
  I x = mk(a,b); const I y = mk(c,d); I p(x); p.clipTo(y); put(o,0,p); put(o,1,y); }
extern "C" void h_clipped(double a, double b, double c, double d, double *o) {
  const I x = mk(a,b); const I y = mk(c,d); put(o,0,x.clippedTo(y)); put(o,1,x); }
extern "C" void h_expand(double a, double b, double c, double d, double *o) {
  I x = mk(a,b); const I y = mk(c,d); I p(x); p.expandTo(y); put(o,0,p); put(o,1,y); }
extern "C" void h_expanded(double a, double b, double c, double d, double *o) {
  const I x = mk(a,b); const I y = mk(c,d); put(o,0,x.expandedTo(y)); put(o,1,x); }
extern "C" void h_clippt(double a, double b, double c, double *o) {
  I x = mk(a,b); I p(x); p.clipTo(N(c)); put(o,0,p); put(o,1,x.clippedTo(N(c))); }
extern "C" void h_expandpt(double a, double b, double c, double *o) {
  I x = mk(a,b); I p(x); p.expandTo(N(c)); put(o,0,p); }
extern "C" void h_expandedpt(double a, double b, double c, double *o) {
  I x = mk(a,b); put(o,0,x.expandedTo(N(c))); }
extern "C" void h_alias(double a, double b, double *o) {
  I x = mk(a,b); I y(x); x.clipTo(x); y.expandTo(y); put(o,0,x); put(o,1,y); }
extern "C" void h_dil0(double a, double b, double c, double *o) { I x = mk(a,b); I p(x); p.dilateBy(Angle(c)); put(o,0,p); }
extern "C" void h_dil1(double a, double b, double c, double *o) { I x = mk(a,b); put(o,0,x.dilatedBy(Angle(c))); }
extern "C" void h_dil2(double a, double b, double c, double *o) { I x = mk(a,b); I p(x); p.erodeBy(Angle(c)); put(o,0,p); }
extern "C" void h_dil3(double a, double b, double c, double *o) { I x = mk(a,b); put(o,0,x.erodedBy(Angle(c))); }
extern "C" void h_size(double a, double b, double *o) {
  I x = mk(a,b); o[0] = x.getSize().asRadians(); o[1] = x.getCenter().asRadians();
  o[2] = N::between(N(a), N(b)).asRadians(); o[3] = N(a).getAngleTo(N(b)).asRadians(); put(o,2,x); }
extern "C" void h_ctor(double a, double b, double *o) { put(o,0,I(Angle(a), Angle(b))); }
extern "C" void h_ctor1(double a, double *o) { put(o,0,I(Angle(a))); put(o,1,I(N(a))); o[4] = N(a).asRadians(); o[5] = N(Angle(a)).asRadians(); }
extern "C" void h_konst(long *o) { o[0] = I().isEmpty(); o[1] = I::empty().isEmpty(); o[2] = I::full().isFull(); o[3] = I::full().isEmpty(); }
extern "C" void h_ctl(double a, double b, double c, double d, long *o) { I x = mk(a,b), y = mk(c,d); o[0] = x.wraps() ? true : x.contains(y); }
'''


def cyc_types(n, nan=True):
    """per value: None (NaN), 'z' (0), 't' (2*pi) or an interior rank"""
    for kinds in itertools.product(('n', 'z', 't', 'i') if nan else ('z', 't', 'i'), repeat=n):
        live = [i for i in range(n) if kinds[i] == 'i']
        for w in (weak_orders(len(live)) if live else [()]):
            r = [None if k == 'n' else Fraction(0) if k == 'z' else T if k == 't' else None for k in kinds]
            for i, x in zip(live, w):
                r[i] = T * x / (n + 1)
            yield tuple(r)


def value(name, r):
    if r is None:
        return NAN
    if r == 0:
        return 0.0
    if r == T:
        return TWO_PI
    return sym(name, 0, T, rank=r)


OPTS = {'consts': (Fraction(0), T), 'poly': True}


def inside(x, p):
    a, b = x
    if a is None or b is None:
        return False
    return (a <= p <= b) if a <= b else (p >= a or p <= b)


def points(*rs):
    s = sorted({r for x in rs for r in x if r is not None} | {Fraction(0), T})
    out = list(s)
    out += [(p + q) / 2 for p, q in zip(s, s[1:])]
    return out


def pset(x, pts):
    return frozenset(p for p in pts if inside(x, p))


def show(ot):
    return '(' + ', '.join('%s=%s' % (n, 'NaN' if r is None else '0' if r == 0 else '2pi' if r == T else '%.2f' % float(r))
                           for n, r in zip('abcd', ot)) + ')'


def length(v, x):
    """arc length polynomial of interval with values v and ranks x"""
    d = P(v[1]).add(P(v[0]), -1)
    return d if x[0] <= x[1] else d.add(P(T))


def rk(v):
    r = rank_of(v)
    return r


def modeq(m, got, want):
    """got == want modulo 2*pi and got within [0, 2*pi]"""
    d = P(got).add(P(want), -1)
    if not (d.is_const() and (d.cval() / T).denominator == 1):
        return False
    return -1 not in m.signs(P(got)) and 1 not in m.signs(P(got).add(P(T), -1))


def fmod_stub(m, a):
    x, y = a
    if isinstance(x, float):
        return math.fmod(x, y)
    if not isinstance(y, float) or y != TWO_PI:
        return NotImplemented
    p = P(x)
    if m.decide(p, {-1}):
        for k in range(0, 3):
            if m.decide(p.add(P(T * (k + 1))), {1}):
                return p.add(P(T * k))
        raise absint_infeasible()
    for k in range(0, 3):
        if m.decide(p.add(P(T * (k + 1)), -1), {-1}):
            return p.add(P(T * k), -1)
    raise absint_infeasible()


def absint_infeasible():
    import absint
    return absint.Infeasible()


def run(chk):
    prog = Program(build.build_ir(harness(), 'C02'))
    stubs = {'fmod': fmod_stub}
    items = []
    for e in ('pred', 'clip', 'clipped', 'expand', 'expanded'):
        items += [(e, ot) for ot in cyc_types(4)]
    for e in ('pt', 'clippt', 'expandpt', 'expandedpt'):
        items += [(e, ot) for ot in cyc_types(3)]
    items += [('alias', ot) for ot in cyc_types(2)] + [('size', ot) for ot in cyc_types(2)]
    for k in range(4):
        items += [('dil%d' % k, ot) for ot in cyc_types(2)]
    items += [('ctor', (i, j)) for i in range(2) for j in range(2)]
    items += [('ctor1', ())]

    def L(op):
        return loc_of(prog, r'NormalizedAngleInterval::%s\(' % op)

    def runs(c, entry, vals, n, kind, opts=OPTS):
        cov = set()

        def go(m):
            out = outbuf(m, n)
            m.call(entry, vals + [out])
            return [geti(m, out, i) if kind == 'i' else getd(m, out, i) for i in range(n)]
        res = list(explore(prog, go, stubs=stubs, opts=dict(opts, cov=cov)))
        c.partitions += len(res)
        src_of(prog, c, cov)
        return res

    hit = 0
    for ot in cyc_types(4, nan=False):
        r, = runs(chk, 'h_ctl', [value('abcd'[i], q) for i, q in enumerate(ot)], 1, 'i')
        pts = points(ot)
        if bool(r.value[0]) != (pset(ot[:2], pts) >= pset(ot[2:], pts)):
            hit += 1
    if not hit:
        raise build.AnalysisError('positive control did not fire')
    chk.info['positive_control_reports'] = hit

    def bad(c, r, name, ot):
        if r.alarm is not None or r.exc is not None:
            c.fail('no-fault', name + ':fault', (r.alarm.where or ['?'])[0] if r.alarm else name,
                   '%s %s: %s' % (name, show(ot), r.alarm or r.exc))
            return True

    def one(c, it):
        what, ot = it
        e = 'h_' + what
        v = [value('abcd'[i], q) for i, q in enumerate(ot)]
        pts = points(ot)
        if what in ('pred', 'pt'):
            x = ot[:2]
            y = ot[2:] if what == 'pred' else (ot[2], ot[2])
            X, Y = pset(x, pts), pset(y, pts)
            want = [X >= Y, not (X & Y), bool(X & Y), X <= Y, (X >= Y) + 2 * (not (X & Y)) + 4 * (X <= Y), X == Y, X != Y,
                    not X, x == (0, T), None not in x and x[0] > x[1]]
            for r in runs(c, e, v, 10, 'i'):
                if bad(c, r, what, ot):
                    continue
                for i, n in enumerate(NAMES + ['isFull', 'wraps']):
                    c.expect(int(r.value[i]) == int(want[i]), 'set-predicate',
                             '%s(%s)' % (n, 'interval' if what == 'pred' else 'angle'), L(n),
                             '%s is %s for %s; set semantics on the circle require %s' % (n, r.value[i], show(ot), int(want[i])))
        elif what in ('clip', 'clipped', 'expand', 'expanded', 'clippt', 'expandpt', 'expandedpt'):
            x = ot[:2]
            y = ot[2:] if len(ot) == 4 else (ot[2], ot[2])
            vx, vy = v[:2], (v[2:] if len(ot) == 4 else [v[2], v[2]])
            X, Y = pset(x, pts), pset(y, pts)
            clip = what.startswith('clip')
            W = X & Y if clip else X | Y
            if what == 'clippt' and ot[2] is None:
                W = frozenset()
            n = 4 if what not in ('expandpt', 'expandedpt') else 2
            op = {'clip': 'clipTo', 'clipped': 'clippedTo', 'expand': 'expandTo', 'expanded': 'expandedTo', 'clippt': 'clipTo',
                  'expandpt': 'expandTo', 'expandedpt': 'expandedTo'}[what]
            key = '%s(%s)' % (op, 'interval' if len(ot) == 4 else 'angle')
            for r in runs(c, e, v, n, 'f'):
                if bad(c, r, what, ot):
                    continue
                outs = [(op, 0)] + ([('clippedTo', 1)] if what == 'clippt' else [])
                for nm, k in outs:
                    got = r.value[2 * k:2 * k + 2]
                    try:
                        g = (rank_of(got[0]), rank_of(got[1]))
                    except ValueError as ex:
                        c.fail('clip-expand', key, L(nm), '%s %s: %s' % (nm, show(ot), ex))
                        continue
                    G = pset(g, pts)
                    ends = [q for q in ot if q is not None] + [Fraction(0), T]
                    exact = not W or any(pset((p, q), pts) == W for p in ends for q in ends)
                    if exact:
                        c.expect(G == W, 'clip-expand', key, L(nm), lambda: '%s %s gives [%s, %s], not the exact %s' % (
                            nm, show(ot), got[0], got[1], 'intersection' if clip else 'union'))
                    else:
                        cands = [(x, vx), (y, vy)] if clip else [((x[0], y[1]), (vx[0], vy[1])), ((y[0], x[1]), (vy[0], vx[1]))]
                        sel = [i for i in (0, 1) if cands[i][0] == g]
                        good = bool(sel) and G >= W
                        if good:
                            a, b = cands[sel[0]], cands[1 - sel[0]]
                            dl = length(a[1], a[0]).add(length(b[1], b[0]), -1)
                            good = 1 not in r.m.signs(dl) or len(sel) == 2
                        c.expect(good, 'smallest-cover', key, L(nm),
                                 lambda: '%s %s gives [%s, %s], which is not the smallest interval covering the %s; path: %s' % (
                                     nm, show(ot), got[0], got[1], 'intersection' if clip else 'union', r.path()))
                if n == 4 and what != 'clippt':
                    keep = r.value[2:4]
                    ref = v[2:4] if what in ('clip', 'expand') else v[:2]
                    c.expect(all(k == w or (k != k and w != w) for k, w in zip(keep, ref)), 'operands-unchanged', key, L(op), show(ot))
        elif what == 'alias':
            for r in runs(c, e, v, 4, 'f'):
                if bad(c, r, what, ot):
                    continue
                for i, op in enumerate(('clipTo', 'expandTo')):
                    g = (rank_of(r.value[2 * i]), rank_of(r.value[2 * i + 1]))
                    c.expect(pset(g, pts) == pset(ot, pts), 'alias', op + '(self)', L(op), '%s with itself %s' % (op, show(ot)))
        elif what == 'size':
            if None in ot:
                return
            for r in runs(c, e, v, 6, 'f'):
                if bad(c, r, what, ot):
                    continue
                o, m = r.value, r.m
                ln = length(v, ot)
                c.expect(P(o[0]) == ln, 'size-center', 'getSize', L('getSize'), lambda: '%s: %s' % (show(ot), o[0]))
                c.expect(P(o[3]) == ln, 'size-center', 'getAngleTo', loc_of(prog, 'NormalizedAngle::getAngleTo'), lambda: '%s: %s' % (show(ot), o[3]))
                # centre: equidistant along the arc, and normalized
                c.expect(modeq(m, o[1], P(v[0]).add(ln.scale(Fraction(1, 2)))), 'size-center', 'getCenter',
                         loc_of(prog, 'NormalizedAngle::center'), lambda: '%s: centre %s' % (show(ot), o[1]))
                d = P(v[0]).add(P(v[1]), -1)
                d = d if ot[0] >= ot[1] else d.neg()
                e2 = P(T).add(d, -1)
                b = P(o[2])
                c.expect((b == d and 1 not in m.signs(d.add(e2, -1))) or (b == e2 and 1 not in m.signs(e2.add(d, -1))),
                         'size-center', 'between', loc_of(prog, 'NormalizedAngle::between'), lambda: '%s: between %s' % (show(ot), o[2]))
                c.expect(P(o[4]) == P(v[0]) and P(o[5]) == P(v[1]), 'size-center', 'getA/getB', L('getA'), show(ot))
        elif what.startswith('dil'):
            sg = 1 if what in ('dil0', 'dil1') else -1
            op = {'dil0': 'dilateBy', 'dil1': 'dilatedBy', 'dil2': 'erodeBy', 'dil3': 'erodedBy'}[what]
            for xv in (NAN, 0.0, sym('x')):
                for r in runs(c, e, v + [xv], 2, 'f'):
                    if bad(c, r, what, ot):
                        continue
                    m, o = r.m, r.value
                    empty = None in ot
                    gn = any(isinstance(q, float) and q != q for q in o)
                    key = op

                    def why():
                        return '%s by %s on %s gives [%s, %s]; path: %s' % (op, xv, show(ot), o[0], o[1], r.path())
                    if empty:
                        c.expect(gn, 'dilate-erode', key, L('dilatedBy'), why)
                        continue
                    if isinstance(xv, float) or ot == (0, T):
                        c.expect(not gn and P(o[0]) == P(v[0]) and P(o[1]) == P(v[1]), 'dilate-erode', key, L('dilatedBy'), why)
                        continue
                    if m.signs(xv) == {0}:
                        c.expect(not gn and P(o[0]) == P(v[0]) and P(o[1]) == P(v[1]), 'dilate-erode', key, L('dilatedBy'), why)
                        continue
                    d = xv.scale(sg)
                    ln = length(v, ot).add(d.scale(2))       # resulting arc length
                    if gn:
                        c.expect(1 not in m.signs(ln), 'dilate-erode', key, L('dilatedBy'), why)
                        continue
                    if P(o[0]) == P(0) and P(o[1]) == P(T) and not (P(v[0]).add(d, -1) == P(0)):
                        c.expect(-1 not in m.signs(ln.add(P(T), -1)), 'dilate-erode', key, L('dilatedBy'), why)
                        continue
                    good = modeq(m, o[0], P(v[0]).add(d, -1)) and modeq(m, o[1], P(v[1]).add(d)) and \
                        -1 not in m.signs(ln) and 1 not in m.signs(ln.add(P(T), -1))
                    # the arc keeps its orientation: representation wraps exactly when b < a
                    if good:
                        rep = P(o[1]).add(P(o[0]), -1)
                        good = rep == ln or (rep == ln.add(P(T), -1) and m.signs(rep) == {-1})
                    c.expect(good, 'dilate-erode', key, L('dilatedBy'), why)
        elif what == 'ctor':
            na, nb = ot
            va = NAN if na else sym('p')
            vb = NAN if nb else sym('q')
            for r in runs(c, e, [va, vb], 2, 'f'):
                m, o = r.m, r.value
                w = L('NormalizedAngleInterval')
                if r.alarm is not None:
                    bad(c, r, 'ctor', ())
                    continue
                if na or nb:
                    c.expect(r.exc is None and any(isinstance(q, float) and q != q for q in o), 'constructor', 'NormalizedAngleInterval(NaN)', w, str(r.exc))
                    continue
                dif = vb.add(va, -1)

                def normal(z):
                    return -1 not in m.signs(z) and 1 not in m.signs(z.add(P(T), -1))

                def notnormal(z):
                    return m.signs(z) == {-1} or m.signs(z.add(P(T), -1)) == {1}
                why = lambda: 'constructor path %s gives %s %s' % (r.path(), r.exc, o)
                if r.exc:
                    c.expect('invalid_argument' in r.exc and m.signs(dif) == {-1} and (notnormal(va) or notnormal(vb)), 'constructor',
                             'NormalizedAngleInterval(a,b) throws', w, why)
                elif normal(va) and normal(vb):
                    c.expect(P(o[0]) == va and P(o[1]) == vb, 'constructor', 'NormalizedAngleInterval(a,b)', w, why)
                elif P(o[0]) == P(0) and P(o[1]) == P(T):
                    c.expect(-1 not in m.signs(dif.add(P(T), -1)), 'constructor', 'NormalizedAngleInterval(a,b) full', w, why)
                else:
                    c.expect(-1 not in m.signs(dif) and 1 not in m.signs(dif.add(P(T), -1)) and modeq(m, o[0], va) and modeq(m, o[1], vb),
                             'constructor', 'NormalizedAngleInterval(a,b)', w, why)
        elif what == 'ctor1':
            for r in runs(c, e, [sym('p')], 6, 'f'):
                if bad(c, r, 'ctor1', ()):
                    continue
                m, o = r.m, r.value
                for k in range(6):
                    c.expect(modeq(m, o[k], sym('p')), 'constructor', 'NormalizedAngle(a)', loc_of(prog, 'NormalizedAngle::NormalizedAngle'),
                             lambda: '%s is not a normalization of p; path %s' % (o[k], r.path()))
    parallel(chk, items, one)
    for r in runs(chk, 'h_konst', [], 4, 'i'):
        chk.expect(list(r.value) == [1, 1, 1, 0], 'constructor', 'empty/full', L('full'), str(r.value))
    chk.need('set-predicate', 5000)
    chk.need('clip-expand', 2000)
    chk.need('smallest-cover', 50)
    chk.need('dilate-erode', 100)
