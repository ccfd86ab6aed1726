"""C05: relate() - dispatch, inversion, proxies, and the claims it makes."""
import itertools
from common import *
from framework import parallel
from absint import Infeasible

EXPLANATION = (
    'Abstract interpretation of the linked IR of every relate overload. Dispatch: the primitive of each pair of region kinds is '
    'replaced by a hook answering each of the 8 bit sets and the other orientation must be its inversion; proxies (bounding '
    'circle, bounding box) may only pass on the bits a superset can prove. Primitives: distances, chord lengths, containment of '
    'a point and orientations are unknowns (or all sign tables) and a claimed CONTAINS, WITHIN or DISJOINT must be entailed, in '
    'a convex polyhedra domain, by the comparisons made on the path; claims that hold with margin must be made.')
ASSUMPTIONS = ['exact real arithmetic for the compared distances',
               'the distance helpers and the orientation predicate mean what their documentation says (orientation: see C11)',
               'polygons of 3 and 4 vertices for the polygon primitives']

HARNESS = OPAQUE_REGION + r'''
#include "lsst/sphgeom/orientation.h"
#include "lsst/sphgeom/utils.h"
static Region *mk(long kind, double const *v) {
  switch (kind) {
    case 0: return new Box(NormalizedAngleInterval::fromRadians(v[0], v[1]), AngleInterval::fromRadians(v[2], v[3]));
    case 1: return new Circle(U(v), v[3]);
    case 2: return new ConvexPolygon(U(v), U(v + 3), U(v + 6));
    case 3: return new ConvexPolygon(U(v), U(v + 3), U(v + 6), U(v + 9));
    case 4: return new Ellipse(U(v), Angle(v[3]), Angle(v[4]), Angle(v[5]));
    case 6: return new Box();
    case 7: return new Circle();
    case 8: return new Ellipse();
    case 9: return new Box(Box::full());
    case 10: return new Circle(Circle::full());
    case 11: return new Ellipse(Ellipse::full());
  }
  return nullptr;
}
template <class A> static long via(A const &a, Region *b, long k) {
  switch (k) {
    case 0: return a.relate(*static_cast<Box *>(b)).to_ulong();
    case 1: return a.relate(*static_cast<Circle *>(b)).to_ulong();
    case 2: return a.relate(*static_cast<ConvexPolygon *>(b)).to_ulong();
    case 4: return a.relate(*static_cast<Ellipse *>(b)).to_ulong();
    case 5: return a.relate(*b).to_ulong();
  }
  return 99; }
extern "C" Region *h_mk(long kind, double const *v) { return mk(kind, v); }
extern "C" long h_dispatch(long kind, double const *v, long id) {
  Region *a = mk(kind, v); Opq q(id); return a->relate(static_cast<Region const &>(q)).to_ulong(); }
extern "C" long h_rel(Region *a, long ka, Region *b, long kb) {
  switch (ka) {
    case 0: return via(*static_cast<Box *>(a), b, kb);
    case 1: return via(*static_cast<Circle *>(a), b, kb);
    case 2: return via(*static_cast<ConvexPolygon *>(a), b, kb);
    case 4: return via(*static_cast<Ellipse *>(a), b, kb);
    case 5: return via(*a, b, kb);
  }
  return 99; }
extern "C" long h_polypred(double const *v, long which) { ConvexPolygon p(U(v), U(v + 3), U(v + 6)); Opq q(10);
  switch (which) { case 0: return p.contains(q); case 1: return p.isDisjointFrom(q); case 2: return p.intersects(q); case 3: return p.isWithin(q); }
  return 99; }
extern "C" long h_circpred(Region *a, Region *b, long which) { Circle const &c = *static_cast<Circle *>(a), &d = *static_cast<Circle *>(b);
  switch (which) { case 0: return c.contains(d); case 1: return c.isDisjointFrom(d); case 2: return c.intersects(d); case 3: return c.isWithin(d); }
  return 99; }
extern "C" long h_invert(long r) { return invert(Relationship(r)).to_ulong(); }
extern "C" long h_polyin(Region *p, double const *v) { return p->contains(U(v)); }
extern "C" long h_circin(Region *p, double const *v, long which) { Circle const &c = *static_cast<Circle *>(p); UnitVector3d x = U(v);
  switch (which) { case 0: return c.contains(x); case 1: return c.isDisjointFrom(x); case 2: return c.intersects(x); case 3: return c.relate(x).to_ulong(); case 4: return c.isWithin(x); }
  return 99; }
'''
NAME = {0: 'Box', 1: 'Circle', 2: 'ConvexPolygon', 4: 'Ellipse', 5: 'Region'}
F = Fraction
PI = 3.141592653589793


def bits(r):
    if not isinstance(r, int):
        return repr(r)
    return '|'.join(n for n, b in (('DISJOINT', 1), ('CONTAINS', 2), ('WITHIN', 4)) if r & b) or 'INTERSECTS'


def buf(m, vals):
    p = outbuf(m, max(len(vals), 1))
    for i, x in enumerate(vals):
        m.store(Ptr(p.obj, 8 * i), x, ['d'], 8)
    return p


def v3(n):
    return [sym('%s.%s' % (n, c), F(-1), F(1)) for c in 'xyz']


def box_syms(t=''):
    return [sym(t + 'lonA', F(1), F(2)), sym(t + 'lonB', F(3), F(4)), sym(t + 'latA', F(-1), F(-1, 2)), sym(t + 'latB', F(1, 2), F(1))]


def inputs(kind, t=''):
    if kind == 0:
        return box_syms(t)
    if kind == 1:
        return v3(t + 'c') + [sym(t + 'l2', F(1, 100), F(3))]
    if kind in (2, 3):
        return sum((v3(t + 'v%d' % i) for i in range(kind + 1)), [])
    if kind == 4:
        return [1.0, 0.0, 0.0] + [sym(t + 'alpha', F(1, 2), F(1)), sym(t + 'beta', F(1, 10), F(1, 3)), 0.0]
    return [0.0]


def lds(m, p, n, off=0):
    return [m.load(Ptr(p.obj, p.off + off + 8 * i), ['d'], 8) for i in range(n)]


class Ctx:
    pass


def run(chk):
    prog = Program(build.build_ir(HARNESS, 'C05'))
    X = Ctx()
    X.prog = prog
    X.oa = stub_map(prog, {r'Circle::openingAngleFor\(': lambda m, a: m.fn('oa', a[0], lo=0, hi=F(PI)),
                           r'Circle::squaredChordLengthFor\(': lambda m, a: m.fn('scl', a[0])})
    jobs = [('dispatch', k) for k in (0, 1, 2, 4)]
    jobs += [('pair', a, b) for a in (0, 1, 2, 4) for b in (0, 1, 2, 4) if a < b]
    jobs += [('self', a) for a in (0, 1, 2, 4)]
    jobs += [('proxy', a, b) for a, b in ((4, 0), (4, 1), (4, 2), (4, 4), (2, 0), (2, 4))]
    jobs += [('polypred', w) for w in range(4)]
    jobs += [('invert',)]
    jobs += [('circles', s, t) for s in range(3) for t in range(3)]
    jobs += [('circpoint', s) for s in range(3)]
    jobs += [('polycircle', k, s) for k in (2, 3) for s in range(3)]
    jobs += [('boxcircle', s, t) for s in range(3) for t in range(3)]
    jobs += [('polyin', k) for k in (2, 3)]
    N = 48 if not chk.thorough else 192
    jobs += [('polypoly', a, b, i, N) for a, b in ((2, 2), (2, 3), (3, 2), (3, 3)) for i in range(N)]

    def one(c, it):
        globals()['do_' + it[0]](c, X, *it[1:])
    parallel(chk, jobs, one)
    for r, n in (('dispatch-inverted', 32), ('inverse-orientation', 48), ('proxy-bits', 48), ('poly-poly', 4000), ('circle-circle', 9)):
        chk.need(r, n)


def ex(c, X, fn, stubs, key, loc, opts=None, maxpaths=20000):
    cov = set()
    n = 0
    for r in explore(X.prog, fn, stubs=dict(X.oa, v_clone=lambda m, a: None, v_dtor=lambda m, a: None, **stubs),
                     opts=dict(opts or {}, cov=cov), maxpaths=maxpaths):
        n += 1
        if r.alarm is not None or r.exc is not None:
            c.fail('no-fault', key + ':fault', (getattr(r.alarm, 'where', None) or [loc])[0], '%s: %s' % (key, r.alarm or r.exc))
        else:
            yield r
    c.partitions += n
    src_of(X.prog, c, cov)


def loc(X, cls, arg):
    return loc_of(X.prog, r'%s::relate\(lsst::sphgeom::%s const' % (cls, arg))


def prim(X, a, b):
    """mangled names of A::relate(B const&)"""
    return symbols(X.prog, r'sphgeom::%s::relate\(lsst::sphgeom::%s const' % (NAME[a], NAME[b]))


def do_invert(c, X):
    for r in range(8):
        for R in ex(c, X, lambda m: m.call('h_invert', [r]), {}, 'invert', 'Relationship.h'):
            c.expect(R.value == invert(r), 'invert-table', 'invert', loc_of(X.prog, r'sphgeom::invert\('), 'invert(%s) = %s' % (bits(r), bits(R.value)))


def do_dispatch(c, X, k):
    l = loc(X, NAME[k], 'Region')
    for ans in range(8):
        seen = []

        def vr(m, a):
            seen.append((a[0], a[1], a[2]))
            return ans

        def go(m):
            seen.clear()
            v = m.call('h_dispatch', [k, buf(m, inputs(k)), 10])
            return v, list(seen)
        for R in ex(c, X, go, {'v_relate': vr}, 'dispatch', l):
            v, s = R.value
            kind = {0: 1, 1: 2, 2: 3, 4: 4}[k]
            c.expect(v == invert(ans) and len(s) >= 1 and all(x[1] == kind for x in s), 'dispatch-inverted', 'dispatch:' + NAME[k], l,
                     lambda: '%s::relate(Region): the other region, asked %s, answers %s; got %s' % (NAME[k], s, bits(ans), bits(v)))


def hook(names, ans, log):
    def st(m, a):
        log.append(a)
        return ans
    return {n: st for n in names}


def do_pair(c, X, a, b):
    """A.relate(B) and B.relate(A), statically and through Region&, are inverses"""
    va, vb = inputs(a, 'a'), inputs(b, 'b')
    done = False
    for p, q in ((a, b), (b, a)):
        names = prim(X, p, q)
        vp, vq = (va, vb) if p == a else (vb, va)
        l = loc(X, NAME[q], NAME[p])
        good = True
        res = []
        for ans in range(8):
            for ka, kb in ((q, p), (5, p), (q, 5), (5, 5)):
                log = []

                def go(m):
                    log.clear()
                    x, y = m.call('h_mk', [q, buf(m, vq)]), m.call('h_mk', [p, buf(m, vp)])
                    v = m.call('h_rel', [x, ka, y, kb])
                    return v, [(t[0].obj is y.obj, t[1].obj is x.obj) for t in log], len(log)
                try:
                    for R in ex(c, X, go, hook(names, ans, log), 'pair:%s-%s' % (NAME[q], NAME[p]), l, maxpaths=60):
                        v, same, n = R.value
                        if n == 0:
                            good = False
                            break
                        # through Region&, the result of q.relate((Region&)p) must also be q's relation to p
                        res.append((ans, v, same, ka, kb))
                except (absint_err()):
                    good = False
                if not good:
                    break
            if not good:
                break
        if good and res:
            done = True
            for ans, v, same, ka, kb in res:
                c.expect(v == invert(ans) and all(x and y for x, y in same), 'inverse-orientation', 'pair:%s-%s' % (NAME[q], NAME[p]), l,
                         lambda: '%s.relate(%s) is %s but %s.relate(%s) (%s) is %s' % (NAME[p], NAME[q], bits(ans), NAME[q], NAME[p],
                                                                                  'static' if ka != 5 and kb != 5 else 'through Region&', bits(v)))
            break
    if not done:
        # neither is defined by the other: both must come from a common
        # primitive between the polygon / box and the bounding circle
        names = symbols(X.prog, r'detail::relate<.*Circle const') + prim(X, 0, 1)
        la = loc(X, NAME[a], NAME[b])
        for ans in range(8):
            out = []
            for (ka, kb) in ((a, b), (b, a), (5, 5)):
                log = []

                def go(m):
                    log.clear()
                    x, y = m.call('h_mk', [a, buf(m, va)]), m.call('h_mk', [b, buf(m, vb)])
                    v = m.call('h_rel', [x, ka, y, kb] if ka != b else [y, ka, x, kb])
                    return v, len(log)
                for R in ex(c, X, go, hook(names, ans, log), 'pair', la, maxpaths=60):
                    out.append((ka, kb) + R.value)
            done = len(out) >= 3 and all(o[3] == 1 for o in out)
            if not done:
                break
            fwd = [o[2] for o in out if o[0] != b]
            rev = [o[2] for o in out if o[0] == b]
            c.expect(all(invert(f) == r for f in fwd for r in rev), 'inverse-orientation', 'pair:%s-%s' % (NAME[a], NAME[b]), la,
                     lambda: '%s.relate(%s) is %s, %s.relate(%s) is %s' % (NAME[a], NAME[b], [bits(f) for f in fwd], NAME[b], NAME[a], [bits(r) for r in rev]))
    if not done:
        raise build.AnalysisError('no primitive orientation for %s and %s' % (NAME[a], NAME[b]))


def absint_err():
    import absint
    return (absint.Unsupported, absint.Budget)


def do_self(c, X, a):
    """same kind through Region&: the inverse of the argument's answer"""
    names = prim(X, a, a)
    l = loc(X, NAME[a], 'Region')
    for ans in range(8):
        for ka, kb in ((a, 5), (5, 5), (5, a)):
            log = []

            def go(m):
                log.clear()
                x, y = m.call('h_mk', [a, buf(m, inputs(a, 'a'))]), m.call('h_mk', [a, buf(m, inputs(a, 'b'))])
                v = m.call('h_rel', [x, ka, y, kb])
                return v, [(t[0].obj is x.obj, t[1].obj is y.obj, t[0].obj is y.obj, t[1].obj is x.obj) for t in log]
            for R in ex(c, X, go, hook(names, ans, log), 'self:' + NAME[a], l):
                v, s = R.value
                okd = len(s) == 1 and (s[0][0] and s[0][1] and v == ans or s[0][2] and s[0][3] and v == invert(ans))
                c.expect(okd, 'inverse-orientation', 'self:' + NAME[a], l, lambda: '%s-%s through Region&: primitive answers %s, got %s' % (NAME[a], NAME[a], bits(ans), bits(v)))


def do_proxy(c, X, a, b):
    """a proxy that is a superset can only prove DISJOINT (either side) and
    WITHIN (of the proxied left side) or CONTAINS (of the proxied right side)"""
    l = loc(X, NAME[a], NAME[b])
    prog = X.prog
    if a == 4 and b != 4:
        names, mask = prim(X, 1, b), 5
    elif a == 4:
        names, mask = prim(X, 1, 1), 1
    elif b == 0:
        names, mask = prim(X, 0, 0), 5
    else:
        names, mask = symbols(prog, r'detail::relate<.*Circle const'), 3
        names = names or prim(X, 2, 1)

    def bc(m, a_):
        # a circle whose members identify the ellipse it bounds
        ret, e = a_[0], a_[1]
        m.call(symbols(prog, r'sphgeom::Circle::Circle\(\)')[0], [ret])
        m.store(Ptr(ret.obj, ret.off + 8), sym('bound(%s)' % id(e.obj)), ['d'], 8)
        return None

    def bb(m, a_):
        ret = a_[0]
        m.call(symbols(prog, r'sphgeom::Box::Box\(\)')[0], [ret])
        m.store(Ptr(ret.obj, ret.off + 8), sym('bbox'), ['d'], 8)
        return None
    for ans in range(8):
        log = []

        def st(m, t):
            log.append([m.load(Ptr(q.obj, q.off + 8), ['d'], 8) if q.obj.size >= 16 else None for q in (t[0], t[-1])])
            return ans

        def go(m):
            log.clear()
            x, y = m.call('h_mk', [a, buf(m, inputs(a, 'a'))]), m.call('h_mk', [b, buf(m, inputs(b, 'b'))])
            v = m.call('h_rel', [x, a, y, b])
            return v, [list(t) for t in log], 'bound(%s)' % id(x.obj), 'bound(%s)' % id(y.obj)
        stubs = {n: st for n in names}
        need = r'Circle::Circle\(\)|Box::Box\(\)'
        for n in symbols(prog, r'Ellipse::getBoundingCircle\('):
            stubs[n] = bc
        for n in symbols(prog, r'detail::boundingBox<') + symbols(prog, r'ConvexPolygon::getBoundingBox\('):
            stubs[n] = bb
        for R in ex(c, X, go, stubs, 'proxy:%s-%s' % (NAME[a], NAME[b]), l):
            v, lg, bx, by = R.value
            okp = len(lg) == 1
            if okp:
                nm = [str(t) for t in lg[0]]
                if a == 4:
                    okp = nm[0] == bx and (b != 4 or nm[1] == by)
                elif b == 0:
                    okp = nm[0] == 'bbox'
                else:
                    okp = nm[1] == by
            c.expect(v == ans & mask and okp, 'proxy-bits', 'proxy:%s-%s' % (NAME[a], NAME[b]), l,
                     lambda: '%s.relate(%s): the bound answers %s (asked %s), only %s can be passed on; got %s' % (NAME[a], NAME[b], bits(ans), lg, bits(mask), bits(v)))


def do_polypred(c, X, w):
    n = ['contains', 'isDisjointFrom', 'intersects', 'isWithin'][w]
    l = loc_of(X.prog, r'ConvexPolygon::%s\(lsst::sphgeom::Region' % n)
    for ans in range(8):
        def go(m):
            return m.call('h_polypred', [buf(m, inputs(2)), w])
        r = invert(ans)      # polygon's relation to the other region
        exp = {0: bool(r & 2), 1: bool(r & 1), 2: not r & 1, 3: bool(r & 4)}[w]
        for R in ex(c, X, go, {'v_relate': lambda m, a: ans}, 'polypred', l):
            c.expect(bool(R.value) == exp, 'predicate-is-its-bit', 'polypred:' + n, l, 'the region, asked about the polygon, answers %s; %s gives %s' % (bits(ans), n, R.value))


def circ(t, state):
    if state == 1:
        return 7, [0.0]
    if state == 2:
        return 10, [0.0]
    return 1, v3(t) + [sym(t + 'l2', F(1, 1000), F(39, 10))]


def sgn(m, p):
    try:
        return m.signs(P(p))
    except Infeasible:
        return set()


TABLE = {(1, 1): 7, (1, 0): 5, (1, 2): 5, (0, 1): 3, (2, 1): 3, (2, 2): 6, (2, 0): 2, (0, 2): 4}
MARGIN = F(1, 10**6)


def cc_stub(prog):
    def st(m, a):
        u, v = lds(m, a[1], 3), lds(m, a[2], 3)
        ku, kv = [str(x) for x in u], [str(x) for x in v]
        if ku > kv:
            u, v = v, u
        m.store(a[0], m.fn('sep', *(u + v), lo=0, hi=F(PI)), ['d'], 8)
        return None
    return stub_map(prog, {r'NormalizedAngle::NormalizedAngle\(lsst::sphgeom::(Unit)?Vector3d const': st})


def do_circles(c, X, s, t):
    l = loc(X, 'Circle', 'Circle')
    (ka, va), (kb, vb) = circ('a', s), circ('b', t)
    stubs = cc_stub(X.prog)
    got = set()
    for w in (9, 0, 1, 2, 3):
        nm = {9: 'relate', 0: 'contains', 1: 'isDisjointFrom', 2: 'intersects', 3: 'isWithin'}[w]
        lw = loc_of(X.prog, r'Circle::%s\(lsst::sphgeom::Circle const' % nm)
        lg = []

        def go(m):
            x, y = m.call('h_mk', [ka, buf(m, va)]), m.call('h_mk', [kb, buf(m, vb)])
            v = m.call('h_rel', [x, 1, y, 1]) if w == 9 else m.call('h_circpred', [x, y, w])
            # centre 3 doubles, squared chord length, opening angle after the vptr
            return v, lds(m, x, 5, 8), lds(m, y, 5, 8)
        for R in ex(c, X, go, stubs, 'circles', l, {'poly': True}):
            v, a, b = R.value
            m = R.m
            key = 'circle-%s:%d%d' % (nm, s, t)
            if s or t:
                r = TABLE[s, t]
                exp = r if w == 9 else {0: int(bool(r & 2)), 1: r & 1, 2: 1 - (r & 1), 3: int(bool(r & 4))}[w]
                c.expect(v == exp, 'empty-and-full', key, lw, lambda: '%s of %s and %s circle gives %s' % (nm, ['a', 'an empty', 'a full'][s], ['a', 'an empty', 'a full'][t], bits(v) if w == 9 else v))
                continue
            sep = m.fn('sep', *(a[:3] + b[:3]), lo=0, hi=F(PI))
            if sorted([[str(q) for q in a[:3]], [str(q) for q in b[:3]]])[0] != [str(q) for q in a[:3]]:
                sep = m.fn('sep', *(b[:3] + a[:3]), lo=0, hi=F(PI))
            oa, ob = P(a[4]), P(b[4])
            eq = all(sgn(m, P(x).add(P(y), -1)) == {0} for x, y in zip(a, b))
            con = sep.add(ob).add(oa, -1)            # <= 0: a contains b
            wit = sep.add(oa).add(ob, -1)
            dis = sep.add(oa, -1).add(ob, -1)        # > 0: disjoint
            claims = v if w == 9 else {0: 2 * v, 1: v, 2: 1 - v, 3: 4 * v}[w]
            consider = 7 if w == 9 else {0: 2, 1: 1, 2: 1, 3: 4}[w]
            for bit, p, ok, what in ((2, con, {-1, 0}, 'CONTAINS'), (4, wit, {-1, 0}, 'WITHIN'), (1, dis, {1}, 'DISJOINT')):
                if not consider & bit:
                    continue
                if claims & bit:
                    c.expect((eq and bit != 1) or sgn(m, p) <= ok, 'circle-circle', key + what, lw,
                             lambda: '%s claims %s on a path where it need not hold: %s' % (nm, what, R.path(8)))
                else:
                    # not claimed: must not hold by more than the margin
                    q = p.add(P(MARGIN), 1 if bit != 1 else -1)
                    bad = {-1} if bit != 1 else {1}
                    mayhold = sgn(m, q) & bad
                    c.expect(eq and bit == 1 or not (sgn(m, q) <= bad), 'circle-circle-complete', key + 'no' + what, lw,
                             lambda: '%s does not claim %s on a path where it holds: %s' % (nm, what, R.path(8)))
            got.add((w, v))
    if not s and not t:
        for w, v in ((9, 0), (9, 1), (9, 2), (9, 4), (9, 6), (0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1), (3, 0), (3, 1)):
            c.expect((w, v) in got, 'outcome-reachable', 'circle-circle:%s:%s' % (w, v), l, 'no input gives this answer')


def do_circpoint(c, X, s):
    l = loc_of(X.prog, r'Circle::contains\(lsst::sphgeom::UnitVector3d')
    k, va = circ('a', s)
    # an empty circle is centred on the pole: stay off it, where its squared
    # distance is visibly positive
    pt = v3('p') if s != 1 else v3('p')[:2] + [sym('p.z', F(-1), F(999, 1000))]
    for w in range(5):
        def go(m):
            x = m.call('h_mk', [k, buf(m, va)])
            return m.call('h_circin', [x, buf(m, pt), w]), lds(m, x, 5, 8)
        nm = ['contains', 'isDisjointFrom', 'intersects', 'relate', 'isWithin'][w]
        for R in ex(c, X, go, {}, 'circpoint', l, {'poly': True}):
            v, a = R.value
            key = 'circle-point:%s%d' % (nm, s)
            d = P(0)
            for x, y in zip(a[:3], pt):
                z = P(y).add(P(x), -1)
                d = d.add(z.mul(z))
            d = d.add(P(a[3]), -1)      # <= 0: inside
            inside = True if s == 2 else False if s == 1 else None
            if inside is None:
                sg = sgn(R.m, d)
                inside = True if sg <= {-1, 0} else False if sg <= {1} else None
                if w == 4:
                    inside = True
            if w in (0, 2):
                exp = inside
            elif w == 1:
                exp = None if inside is None else not inside
            elif w == 4:
                exp = s == 1
            else:
                exp = {True: 2, False: 1, None: None}[inside] if s != 1 else 5
            c.expect(exp is not None and int(v) == int(exp), 'circle-point', key, l, lambda: '%s answers %s where the point is %s; %s' % (
                nm, v, {True: 'inside', False: 'outside', None: 'on either side'}[inside], R.path(4)))


def chord_stubs(X, log):
    def mk(tag):
        def st(m, a):
            args = [lds(m, p, 3) for p in a[:4]]
            r = m.fn(tag, *sum(args, []), lo=0, hi=F(4))
            log.append((tag, args, r))
            return r
        return st
    return stub_map(X.prog, {r'sphgeom::getMaxSquaredChordLength\(': mk('maxd'), r'sphgeom::getMinSquaredChordLength\(': mk('mind')})


def sqdist(a, b):
    d = P(0)
    for x, y in zip(a, b):
        z = P(x).add(P(y), -1)
        d = d.add(z.mul(z))
    return d


def samev(a, b):
    return all(P(x) == P(y) for x, y in zip(a, b))


def ptset(v, tag):
    return tuple(str(x) for x in v)


def do_polycircle(c, X, k, s):
    n = k + 1
    l = loc(X, 'ConvexPolygon', 'Circle')
    kb, vb = circ('c', s)
    verts = [v3('v%d' % i) for i in range(n)]
    log = []
    inl = []

    def contains(m, a):
        p = lds(m, a[-1], 3)
        v = m.choose(2, 'contains')
        inl.append((p, v))
        return v

    def rc(m, a):
        # unnormalised plane normal: opaque
        u, v = lds(m, a[1], 3), lds(m, a[2], 3)
        for i in range(3):
            m.store(Ptr(a[0].obj, a[0].off + 8 * i), m.fn('rc%d' % i, *(u + v)), ['d'], 8)
    stubs = chord_stubs(X, log)
    cs = symbols(X.prog, r'detail::contains<')
    cs = cs or symbols(X.prog, r'ConvexPolygon::contains\(lsst::sphgeom::UnitVector3d')
    if not cs:
        raise build.AnalysisError('no point in polygon predicate')
    for nme in cs:
        stubs[nme] = contains
    stubs.update(stub_map(X.prog, {r'::robustCross\(': rc}))
    seen = set()

    def go(m):
        log.clear()
        inl.clear()
        x, y = m.call('h_mk', [k, buf(m, sum(verts, []))]), m.call('h_mk', [kb, buf(m, vb)])
        return m.call('h_rel', [x, 2, y, 1]), lds(m, y, 5, 8), list(log), list(inl)
    for R in ex(c, X, go, stubs, 'polycircle', l, {'poly': True}):
        v, ci, lg, inn = R.value
        m = R.m
        key = 'poly-circle:%d' % n
        if s:
            exp = 3 if s == 1 else 4
            c.expect(v & ~(3 if s == 1 else 4) == 0 and v == exp, 'empty-and-full', key + ':%d' % s, l, 'polygon against %s circle gives %s' % (['', 'an empty', 'a full'][s], bits(v)))
            continue
        seen.add(v)
        cen, scl = ci[:3], P(ci[3])
        claims(c, m, R, v, key, l, cen, scl, verts, [(i, (i + 1) % n) for i in range(n)], lg, inn, None)
    if not s:
        for w in (0, 1, 2, 4):
            c.expect(w in seen, 'outcome-reachable', 'poly-circle:%d:%s' % (n, bits(w)), l, 'no input gives %s' % bits(w))


def claims(c, m, R, v, key, l, cen, scl, verts, edges, lg, inn, latedges):
    """what the path must have established for the claim it makes"""
    if v not in (0, 1, 2, 4):
        c.fail('primitive-claims', key + ':odd', l, 'answers %s for regions that are neither empty nor full' % bits(v))
        return
    if v == 0:
        return
    side = -1 if v == 4 else 1
    for i, p in enumerate(verts):
        c.expect(sgn(m, sqdist(p, cen).add(scl, -1)) <= {side}, 'primitive-claims', key + ':vertex:%s' % bits(v), l,
                 lambda: 'claims %s without establishing that vertex %d is %s the circle: %s' % (bits(v), i, 'inside' if side < 0 else 'outside', R.path(8)))
    tag = 'maxd' if v == 4 else 'mind'
    for i, j in edges:
        hit = [r for t, a, r in lg if t == tag and samev(a[0], cen) and (samev(a[1], verts[i]) and samev(a[2], verts[j]) or samev(a[1], verts[j]) and samev(a[2], verts[i]))]
        c.expect(any(sgn(m, r.add(scl, -1)) <= {side} for r in hit), 'primitive-claims', key + ':edge:%s' % bits(v), l,
                 lambda: 'claims %s without establishing that the edge from vertex %d to %d is %s the circle: %s' % (bits(v), i, j, 'inside' if side < 0 else 'outside', R.path(8)))
    if latedges:
        latedges(v, side)
    pt = [P(x).neg() for x in cen] if v == 4 else [P(x) for x in cen]
    need = 1 if v == 2 else 0
    ans = [b for p, b in inn if p == 'pt%d' % (v == 4) or not isinstance(p, str) and samev(p, pt)]
    c.expect(need in ans and (1 - need) not in ans, 'primitive-claims', key + ':topology:%s' % bits(v), l,
             lambda: 'claims %s without testing that the %s is %s: %s' % (bits(v), 'antipode of the circle centre' if v == 4 else 'circle centre', 'inside' if need else 'outside', R.path(8)))


def do_boxcircle(c, X, s, t):
    l = loc(X, 'Box', 'Circle')
    prog = X.prog
    kb, vb = circ('c', t)
    ka, va = (0, box_syms()) if s == 0 else (6, [0.0]) if s == 1 else (9, [0.0])
    log, inl, scl_log, lonin, mac = [], [], [], [], []

    def ll_vec(m, a):
        v = lds(m, a[1], 3)
        m.store(a[0], m.fn('lonOf', *v, lo=0, hi=F(2 * PI)), ['d'], 8)
        m.store(Ptr(a[0].obj, a[0].off + 8), m.fn('latOf', *v, lo=F(-PI / 2), hi=F(PI / 2)), ['d'], 8)

    def vec_ll(m, a):
        v = lds(m, a[1], 2)
        for i in range(3):
            m.store(Ptr(a[0].obj, a[0].off + 8 * i), m.fn('unit%d' % i, *v, lo=-1, hi=1), ['d'], 8)

    def vec_angles(m, a):
        v = [lds(m, a[1], 1)[0], lds(m, a[2], 1)[0]]
        for i in range(3):
            m.store(Ptr(a[0].obj, a[0].off + 8 * i), m.fn('unit%d' % i, *v, lo=-1, hi=1), ['d'], 8)

    def orth(m, a):
        v = a[1] if not isinstance(a[1], Ptr) else lds(m, a[1], 1)[0]
        for i in range(3):
            m.store(Ptr(a[0].obj, a[0].off + 8 * i), m.fn('orth%d' % i, v, lo=-1, hi=1), ['d'], 8)

    def boxin(m, a):
        p = lds(m, a[1], 2)
        v = m.choose(2, 'box contains')
        inl.append((p, v))
        return v

    def lonc(m, a):
        x = a[1] if not isinstance(a[1], Ptr) else lds(m, a[1], 1)[0]
        v = m.choose(2, 'longitude interval contains')
        lonin.append((x, v))
        return v

    def mina(m, a):
        x, y = a[0], a[1]
        r = m.fn('minang', x, y, lo=0, hi=F(PI))
        mac.append((x, y, r))
        return r

    def scl(m, a):
        r = m.fn('scl', a[0])
        scl_log.append((a[0], r))
        return r
    stubs = chord_stubs(X, log)
    stubs.update(stub_map(prog, {r'LonLat::LonLat\(lsst::sphgeom::Vector3d const': ll_vec,
                                 r'UnitVector3d::UnitVector3d\(lsst::sphgeom::LonLat const': vec_ll,
                                 r'UnitVector3d::orthogonalTo\(lsst::sphgeom::NormalizedAngle const': orth,
                                 r'sphgeom::Box::contains\(lsst::sphgeom::LonLat const': boxin,
                                 r'NormalizedAngleInterval::contains\(lsst::sphgeom::NormalizedAngle\)': lonc,
                                 r'sphgeom::getMinAngleToCircle\(': mina}))
    stubs.update(stub_map(prog, {r'UnitVector3d::UnitVector3d\(lsst::sphgeom::(Normalized)?Angle const': vec_angles,
                                 r'Circle::squaredChordLengthFor\(': scl}, required=False))
    X2 = Ctx()
    X2.prog, X2.oa = prog, {k: v for k, v in X.oa.items() if k not in stubs}
    seen = set()

    def go(m):
        for q in (log, inl, scl_log, lonin, mac):
            q.clear()
        x, y = m.call('h_mk', [ka, buf(m, va)]), m.call('h_mk', [kb, buf(m, vb)])
        n0 = len(lonin)
        v = m.call('h_rel', [x, 0, y, 1])
        return v, lds(m, y, 5, 8), list(log), list(inl), list(scl_log), lonin[n0:], list(mac)
    for R in ex(c, X2, go, stubs, 'boxcircle', l, {'poly': True}):
        v, ci, lg, inn, sl, li, ma = R.value
        m = R.m
        key = 'box-circle:%d%d' % (s, t)
        if s or t:
            c.expect(v == TABLE[s, t], 'empty-and-full', key, l, 'answers %s' % bits(v))
            continue
        seen.add(v)
        cen, sc = ci[:3], P(ci[3])
        corners = []
        for lon in va[:2]:
            for lat in va[2:]:
                corners.append([m.fn('unit%d' % i, lon, lat, lo=-1, hi=1) for i in range(3)])
        far = v == 4
        cv = [P(x).neg() for x in cen] if far else [P(x) for x in cen]
        clon, clat = m.fn('lonOf', *cv), m.fn('latOf', *cv)
        inn2 = [('pt%d' % far, b) if P(p[0]) == clon and P(p[1]) == clat else ('other', b) for p, b in inn]

        def lat(v, side):
            asked = [b for x, b in li if P(x) == clon]
            if asked and 1 not in asked:
                return
            mm = [[r for x, y, r in ma if P(x) == clat and P(y) == P(e) or P(y) == clat and P(x) == P(e)] for e in va[2:]]
            ok = False
            if all(mm):
                for arg, r in sl:
                    if v == 4:
                        cond = all(sgn(m, P(arg).add(P(F(PI)), -1).add(q[0])) <= {0, 1} for q in mm)
                    else:
                        cond = all(sgn(m, P(arg).add(q[0], -1)) <= {0, -1} for q in mm)
                    ok = ok or cond and sgn(m, P(r).add(sc, -1)) <= {side}
            c.expect(ok, 'primitive-claims', key + ':latitude-edges:%s' % bits(v), l,
                     lambda: 'claims %s without establishing that both constant-latitude edges are %s the circle: %s' % (bits(v), 'inside' if side < 0 else 'outside', R.path(8)))
        claims(c, m, R, v, key, l, cen, sc, corners, [(0, 1), (2, 3)], lg, inn2, lat)
    if not s and not t:
        for w in (0, 1, 2, 4):
            c.expect(w in seen, 'outcome-reachable', 'box-circle:%s' % bits(w), l, 'no input gives %s' % bits(w))


# ---- polygons and orientations ------------------------------------------------
def orient_stub(X, table, alarm):
    """orientation(a, b, c) from a table of signs: for two vertices of one
    polygon (an edge i -> i+1) and one other point"""
    def st(m, a):
        ids = [int(lds(m, p, 1)[0]) for p in a[:3]]
        best = None
        for r in range(3):
            x = ids[r:] + ids[:r]
            for s, y in ((1, x), (-1, [x[0], x[2], x[1]])):
                if tuple(y) in table:
                    return s * table[tuple(y)]
        if len(set(ids)) < 3:
            return 0
        alarm.append(tuple(ids))
        return 0
    names = symbols(X.prog, r'sphgeom::orientation\(')
    if not names:
        raise build.AnalysisError('no orientation predicate')
    return {n: st for n in names}


def do_polyin(c, X, k):
    n = k + 1
    l = loc_of(X.prog, r'ConvexPolygon::contains\(lsst::sphgeom::UnitVector3d')
    verts = sum(([float(i + 1), 0.0, 0.0] for i in range(n)), [])
    for signs in itertools.product((-1, 0, 1), repeat=n):
        al = []
        tab = {(50, i + 1, (i + 1) % n + 1): signs[i] for i in range(n)}

        def go(m):
            x = m.call('h_mk', [k, buf(m, verts)])
            return m.call('h_polyin', [x, buf(m, [50.0, 0.0, 0.0])])
        for R in ex(c, X, go, orient_stub(X, tab, al), 'polyin', l):
            c.expect(int(R.value) == int(-1 not in signs) and not al, 'polygon-is-half-space-intersection', 'polyin:%d' % n, l,
                     'orientations %s of a point with the edges: contains() is %s %s' % (signs, R.value, al))


def rows(n):
    """sign rows of a point against n edges: inside ones, then outside ones"""
    ins = [(1,) * n, (0,) + (1,) * (n - 1)]
    out = [r for r in itertools.product((-1, 1), repeat=n) if -1 in r]
    out += [(-1,) + (0,) * (n - 1), (0,) * (n - 1) + (-1,)]
    return ins, out


def do_polypoly(c, X, a, b, part, parts):
    n1, n2 = a + 1, b + 1
    l = loc(X, 'ConvexPolygon', 'ConvexPolygon')
    in2, out2 = rows(n2)
    in1, out1 = rows(n1)
    vp = sum(([float(i + 1), 0.0, 0.0] for i in range(n1)), [])
    vq = sum(([float(i + 11), 0.0, 0.0] for i in range(n2)), [])

    def cases():
        k = 0
        # every combination of inside/outside, a few rows for each
        for pat in itertools.product((0, 1), repeat=n1 + n2):
            for var in range(6):
                S = [(in2[var % 2] if pat[i] else out2[(var * 5 + i * 3) % len(out2)]) for i in range(n1)]
                T = [(in1[(var + 1) % 2] if pat[n1 + j] else out1[(var * 7 + j * 3) % len(out1)]) for j in range(n2)]
                yield S, T
        # no vertex inside: every single crossing, both directions
        for i in range(n1):
            for j in range(n2):
                for s in (1, -1):
                    for fill in range(4):
                        S = [list(out2[(fill * 3 + q) % len(out2)]) for q in range(n1)]
                        T = [list(out1[(fill * 5 + q) % len(out1)]) for q in range(n2)]
                        S[i][j], S[(i + 1) % n1][j], T[j][i], T[(j + 1) % n2][i] = s, -s, -s, s
                        yield [tuple(x) for x in S], [tuple(x) for x in T]
        # many outside rows
        for z, p in enumerate(itertools.product(range(len(out2)), repeat=2)):
            for y, q in enumerate(itertools.product(range(len(out1)), repeat=2)):
                if not c.thorough and (z * 31 + y) % 13:
                    continue
                S = [out2[(p[0] * (i + 1) + p[1]) % len(out2)] for i in range(n1)]
                T = [out1[(q[0] * (j + 1) + q[1]) % len(out1)] for j in range(n2)]
                yield S, T
    for idx, (S, T) in enumerate(cases()):
        if idx % parts != part:
            continue
        tab = {}
        for i in range(n1):
            for j in range(n2):
                tab[(i + 1, j + 11, (j + 1) % n2 + 11)] = S[i][j]
                tab[(j + 11, i + 1, (i + 1) % n1 + 1)] = T[j][i]
        i1 = [all(x >= 0 for x in S[i]) for i in range(n1)]
        i2 = [all(x >= 0 for x in T[j]) for j in range(n2)]
        cross = any(S[i][j] == s and S[(i + 1) % n1][j] == -s and T[j][i] == -s and T[(j + 1) % n2][i] == s
                    for i in range(n1) for j in range(n2) for s in (1, -1))
        exp = (4 if all(i1) else 0) | (2 if all(i2) else 0)
        if not any(i1) and not any(i2) and not cross:
            exp = 1
        al = []

        def go(m):
            x, y = m.call('h_mk', [a, buf(m, vp)]), m.call('h_mk', [b, buf(m, vq)])
            return m.call('h_rel', [x, 2, y, 2])
        for R in ex(c, X, go, orient_stub(X, tab, al), 'polypoly', l):
            c.expect(R.value == exp and not al, 'poly-poly', 'poly-poly:%d%d' % (n1, n2), l,
                     lambda: 'vertices of the first inside the second %s, of the second inside the first %s, edges cross: %s; answers %s, not %s %s' % (
                         i1, i2, cross, bits(R.value), bits(exp), al[:3]))
