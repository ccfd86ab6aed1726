"""C20: convex hulls of point sets, polygon equality."""
import itertools
from common import *
from framework import parallel

EXPLANATION = (
    'The hull computation is interpreted with every point an opaque vector: orientation() is answered from oriented matroids (chirotopes) of rank 2 and 3, '
    'all of which are enumerated with the Grassmann-Pluecker relations, lazily split at each query, together with all patterns of equal and antipodal points. '
    'For every oriented matroid that agrees with the answers given on a path, the polygon must have exactly the extreme points as vertices, once each, in counter-clockwise order, '
    'and an exception must be raised exactly if the points do not fit in an open half-space or do not span space. '
    'Larger hulls are reached by giving a convex polygon and one or two further points in every position. Polygon equality is enumerated over vertex identities.')
ASSUMPTIONS = ['point sets of up to 4 points in every arrangement and 5 in the thorough tier, convex polygons of up to 7 vertices plus one more point',
               'orientation is exact (C11); points with equal direction have equal coordinates']

HARNESS = r'''
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/UnitVector3d.h"
using namespace lsst::sphgeom;
static std::vector<UnitVector3d> pts(double const *v, long n) { std::vector<UnitVector3d> p; for (long i = 0; i < n; ++i) p.push_back(UnitVector3d::fromNormalized(v[3 * i], v[3 * i + 1], v[3 * i + 2])); return p; }
extern "C" long h_hull(long which, double const *v, long n, double *o) {
  std::vector<UnitVector3d> p = pts(v, n);
  ConvexPolygon const g = which ? ConvexPolygon::convexHull(p) : ConvexPolygon(p);
  long k = 0;
  for (UnitVector3d const &w : g.getVertices()) { o[k++] = w.x(); o[k++] = w.y(); o[k++] = w.z(); }
  return k / 3;
}
extern "C" long h_fix(double const *v, long n, double *o) {
  std::vector<UnitVector3d> p = pts(v, n);
  ConvexPolygon const g = n == 3 ? ConvexPolygon(p[0], p[1], p[2]) : ConvexPolygon(p[0], p[1], p[2], p[3]);
  long k = 0;
  for (UnitVector3d const &w : g.getVertices()) { o[k++] = w.x(); o[k++] = w.y(); o[k++] = w.z(); }
  return k / 3;
}
static ConvexPolygon mk(double const *v, long n) {
  std::vector<UnitVector3d> p = pts(v, n);
  if (n == 3) return ConvexPolygon(p[0], p[1], p[2]);
  if (n == 4) return ConvexPolygon(p[0], p[1], p[2], p[3]);
  return ConvexPolygon(p);
}
extern "C" void h_eq(double const *a, long n, double const *b, long k, long *o) {
  ConvexPolygon x = mk(a, n), y = mk(b, k);
  o[0] = x == y; o[1] = x != y; o[2] = x == x; o[3] = x != x; ConvexPolygon z(x); o[4] = z == x; z = y; o[5] = z == y; o[6] = x == y;
  std::unique_ptr<Region> c = x.clone(); o[7] = dynamic_cast<ConvexPolygon const &>(*c) == x;
}
'''


def run(chk):
    prog = Program(build.build_ir(HARNESS, 'C20'))
    jobs = [('eq', i) for i in range(4)] + [('few', 0), ('fix', 0)]
    top = 5 if chk.thorough else 4
    for n in range(1, top + 1):
        for cls in patterns(n):
            k = max(abs(c) for c in cls)
            if k < 3:
                jobs.append(('hull', cls, 2, None))
                continue
            jobs.append(('hull', cls, 2, None))
            for first in itertools.product((-1, 0, 1), repeat=2 if k > 3 else 1):
                jobs.append(('hull', cls, 3, first))
    if not chk.thorough:
        # five distinct points, in the arrangements that begin with a quadrilateral or a triangle
        for first in itertools.product((-1, 0, 1), repeat=4):
            jobs.append(('hull', (1, 2, 3, 4, 5), 3, first))
    for k in range(4, 8 if chk.thorough else 7):
        jobs.append(('step', k, 0))
        jobs.append(('step', k, 1))

    def one(c, it):
        globals()['do_' + it[0]](c, prog, *it[1:])
    parallel(chk, jobs, one)
    chk.need('hull', 400)
    chk.need('equality', 50)


# ---- oriented matroids ----------------------------------------------------------
def patterns(n):
    """equal / antipodal patterns: point i has direction of class |c|, sign"""
    out = []

    def rec(p, k):
        if len(p) == n:
            out.append(tuple(p))
            return
        for c in range(1, k + 2):
            rec(p + [c], max(k, c))
            if c <= k:
                rec(p + [-c], k)
    rec([1], 1)
    return out


def perm_sign(t):
    s = 1
    t = list(t)
    for i in range(len(t)):
        for j in range(i):
            if t[j] > t[i]:
                s = -s
    return s


class Chi:
    """partial or total chirotope: sorted triple -> sign"""

    def __init__(self, d):
        self.d = d

    def __call__(self, a, b, c):
        if a == b or b == c or a == c:
            return 0
        return self.d[tuple(sorted((a, b, c)))] * perm_sign((a, b, c))


def gp_ok(x, a, b, c, d, e):
    t = (x(a, b, c) * x(a, d, e), -x(a, b, d) * x(a, c, e), x(a, b, e) * x(a, c, d))
    return not any(t) or (1 in t and -1 in t)


def complete(n, fixed, allowed=lambda t, s: True):
    """all simple chirotopes of rank 3 on range(n) extending fixed"""
    triples = sorted(itertools.combinations(range(n), 3), key=lambda t: (t[2], t[1], t[0]))
    checks = {t: [] for t in triples}
    for q in itertools.permutations(range(n), 5):
        a, b, c, d, e = q
        if b < c < d < e:
            need = [tuple(sorted(z)) for z in ((a, b, c), (a, d, e), (a, b, d), (a, c, e), (a, b, e), (a, c, d))]
            checks[max(need, key=triples.index)].append(q)
    line = {t: [] for t in triples}
    for q in itertools.permutations(range(n), 4):
        a, b, c, d = q
        if a < b and c < d:
            need = [tuple(sorted(z)) for z in ((a, b, c), (a, b, d), (a, c, d), (b, c, d))]
            line[max(need, key=triples.index)].append(q)
    out = []
    d = {}
    x = Chi(d)

    def rec(i):
        if i == len(triples):
            y = Chi(dict(d))
            if n < 3 or all(any(y(a, b, c) for c in range(n)) for a, b in itertools.combinations(range(n), 2)):
                out.append(y)
            return
        t = triples[i]
        for s in ((fixed[t],) if t in fixed else (-1, 0, 1)):
            if not allowed(t, s):
                continue
            d[t] = s
            ok = all(gp_ok(x, *q) for q in checks[t])
            # two points span one line only
            ok = ok and not any(x(a, b, c) == 0 == x(a, b, e) and (x(a, c, e) or x(b, c, e)) for a, b, c, e in line[t])
            if ok:
                rec(i + 1)
            del d[t]
    rec(0)
    return out


def rank2(k):
    """all arrangements of k directions in a plane with normal 'element k'"""
    fixed = {t: 0 for t in itertools.combinations(range(k), 3)}
    return complete(k + 1, fixed, lambda t, s: s != 0 if t[2] == k else True)


# ---- interpretation -------------------------------------------------------------
class World:
    def __init__(self, k):
        self.k = k
        self.v = [[sym('%s%d' % (a, i), -1, 1) for a in 'xyz'] for i in range(k)]
        self.names = {}
        for i in range(k):
            for s in (1, -1):
                self.names[self.key(self.scaled(i, s))] = ('pt', i, s)
        for i, j in itertools.permutations(range(k), 2):
            self.names[self.key(self.cross(i, j))] = ('cross', i, j)

    def scaled(self, i, s):
        return [p if s > 0 else P(p).neg() for p in self.v[i]]

    def cross(self, i, j):
        a, b = self.v[i], self.v[j]
        m = lambda p, q: P(p).mul(P(q))
        return [m(a[1], b[2]).add(m(a[2], b[1]).neg()), m(a[2], b[0]).add(m(a[0], b[2]).neg()), m(a[0], b[1]).add(m(a[1], b[0]).neg())]

    @staticmethod
    def key(v):
        """a vector up to a positive factor"""
        out = []
        lead = None
        for p in v:
            t = sorted(((str(sorted((a.id, e) for a, e in z)), c) for z, c in P(p).t.items()))
            if lead is None and t:
                lead = abs(t[0][1])
            out.append(tuple((a, c / (lead or 1)) for a, c in t))
        return tuple(out)

    def who(self, v):
        return self.names.get(self.key(v))


def read3(m, p):
    return [m.load(Ptr(p.obj, p.off + 8 * i), ['d'], 8) for i in range(3)]


def orient_of(W, ch, args, off):
    """sign of the determinant of three vectors: points, or normals of planes through two points"""
    tags = [W.who(a) for a in args]
    if any(t is None for t in tags):
        raise build.AnalysisError('orientation of a vector that is no input point')
    sgnm = 1
    pos = [i for i, t in enumerate(tags) if t[0] == 'cross']
    if not pos:
        for t in tags:
            sgnm *= t[2]
        return sgnm * ch(*[t[1] for t in tags])
    if len(pos) > 1:
        raise build.AnalysisError('orientation of two normals')
    i = pos[0]
    n, a, b = tags[i], tags[(i + 1) % 3], tags[(i + 2) % 3]
    # (p x q) . (a x b), all four in one plane: compare with an element e off it
    s = a[2] * b[2]
    for e in off:
        u = ch(e, n[1], n[2])
        if u and all(ch(n[1], n[2], z) == 0 for z in (a[1], b[1])):
            return s * u * ch(e, a[1], b[1])
    return None


def stubs(prog, W, n_el, trace):
    off = list(range(n_el))

    def orientation(m, a):
        args = [read3(m, p) for p in a]
        opts = {}
        for ch in m.chis:
            r = orient_of(W, ch, args, off)
            if r is None:
                raise build.AnalysisError('orientation of points with the normal of another plane')
            opts.setdefault(r, []).append(ch)
        ks = sorted(opts)
        r = ks[m.choose(len(ks), 'orientation')] if len(ks) > 1 else ks[0]
        m.chis = opts[r]
        return r & 0xffffffff

    def normalize(m, a):
        return m.fn('nrm', *read3(m, a[0]), lo=1, hi=4)
    return stub_map(prog, {r'sphgeom::orientation(Exact)?\(lsst::sphgeom::(Unit)?Vector3d const&': orientation, r'Vector3d::normalize\(\)': normalize})


def facts(m, W):
    for i in range(W.k):
        for c in range(3):
            m.learn(W.v[i][c], {1} if i % 2 else {-1})
        for j in range(i):
            for c in range(3):
                m.learn(P(W.v[i][c]).add(P(W.v[j][c]).neg()), {1 if i % 2 and not j % 2 else -1 if j % 2 and not i % 2 else 1})
                m.learn(P(W.v[i][c]).add(P(W.v[j][c])), {1 if i % 2 else -1})


def put_points(m, W, cls):
    b = Obj('pts', 24 * len(cls), 'heap')
    for i, c in enumerate(cls):
        for j, x in enumerate(W.scaled(abs(c) - 1, 1 if c > 0 else -1)):
            m.store(Ptr(b, 24 * i + 8 * j), x, ['d'], 8)
    return Ptr(b, 0)


# ---- the specification ----------------------------------------------------------
def acyclic(ch, cls):
    """no nonnegative dependence among the points"""
    els = sorted(set(cls))
    if any(-e in els for e in els):
        return False
    x = lambda a, b, c: ch(abs(a) - 1, abs(b) - 1, abs(c) - 1) * (1 if a > 0 else -1) * (1 if b > 0 else -1) * (1 if c > 0 else -1)
    for a, b, c, d in itertools.combinations(els, 4):
        t = [x(b, c, d), -x(a, c, d), x(a, b, d), -x(a, b, c)]
        nz = [s for s in t if s]
        if nz and len(set(nz)) == 1:
            return False
    # three in a plane, seen from any other element (of either sign)
    n = max(max(t) for t in ch.d) + 1 if ch.d else 0
    for a, b, c in itertools.combinations(els, 3):
        if x(a, b, c) == 0:
            for e in range(1, n + 1):
                t = [x(e, b, c), -x(e, a, c), x(e, a, b)]
                if all(t) and len(set(t)) == 1:
                    return False
    return True


def extreme(ch, cls):
    """vertices of the hull, counter-clockwise, or None"""
    els = sorted(set(cls))
    x = lambda a, b, c: ch(abs(a) - 1, abs(b) - 1, abs(c) - 1) * (1 if a > 0 else -1) * (1 if b > 0 else -1) * (1 if c > 0 else -1)
    if not any(x(*t) for t in itertools.combinations(els, 3)) or not acyclic(ch, cls):
        return None
    n = max(max(t) for t in ch.d) + 1
    nxt = {}
    for a in els:
        for b in els:
            if a == b or any(x(a, b, c) < 0 for c in els):
                continue
            # (a, b) lies on the boundary; it is an edge if no third point on its line is outside the segment
            ok = True
            for c in els:
                if c in (a, b) or x(a, b, c):
                    continue
                q = next(e for e in range(1, n + 1) if x(e, a, b))
                s = 1 if x(q, a, b) > 0 else -1
                if not (s * x(q, a, c) > 0 and s * x(q, c, b) > 0):
                    ok = False
            if ok:
                nxt[a] = b
    start = min(nxt)
    out = [start]
    while nxt[out[-1]] != start:
        out.append(nxt[out[-1]])
        if len(out) > len(els):
            raise build.AnalysisError('hull of a chirotope')
    if len(out) != len(nxt):
        raise build.AnalysisError('hull of a chirotope')
    return out


def rotations_equal(a, b):
    return len(a) == len(b) and any(a == b[i:] + b[:i] for i in range(len(b)))


def show(ch, cls):
    return 'points %s, orientations %s' % (list(cls), {''.join(str(i + 1) for i in t): s for t, s in ch.d.items()})


def do_hull(c, prog, cls, rank, first):
    k = max(abs(x) for x in cls)
    if rank == 3:
        triples = sorted(itertools.combinations(range(k), 3), key=lambda t: (t[2], t[1], t[0]))
        chis = complete(k, dict(zip(triples, first)))
        n_el = k
    else:
        chis = rank2(k)
        n_el = k + 1
    chis = [x for x in chis if rank == 2 or any(x.d.values())]
    if chis:
        hull(c, prog, cls, k, n_el, chis, 'hull:%d' % len(cls))


def do_step(c, prog, k, extra):
    """a strictly convex polygon with k - 1 vertices in counter-clockwise order (possibly started elsewhere) and one more point; or
    the polygon already collapsed by earlier points"""
    base = {t: 1 for t in itertools.combinations(range(k - 1), 3)}
    chis = complete(k, base)
    hull(c, prog, tuple(range(1, k + 1)), k, k, chis, 'step:%d' % k)
    if extra:
        # the same points, the last one first: it becomes part of the initial triangle
        hull(c, prog, (k,) + tuple(range(1, k)), k, k, chis, 'step:%d' % k)
        hull(c, prog, tuple(range(1, k)) + (k, k), k, k, chis, 'step:%d' % k)
        hull(c, prog, tuple(range(1, k)) + (-k,), k, k, chis, 'step:%d' % k)
        hull(c, prog, (1, 1) + tuple(range(2, k + 1)) + (2,), k, k, chis, 'step:%d' % k)


def hull(c, prog, cls, k, n_el, chis, key, which=0):
    W = World(k)
    l = loc_of(prog, r'ConvexPolygon::ConvexPolygon\(std::vector')
    cov = set()

    def go(m):
        m.chis = chis
        facts(m, W)
        m.where = m
        go.m = m
        o = outbuf(m, 3 * len(cls) + 3)
        q = m.call('h_hull', [which, put_points(m, W, cls), len(cls), o])
        return [W.who([getd(m, o, 3 * i + j) for j in range(3)]) for i in range(q)]
    n = 0
    for R in explore(prog, go, stubs=stubs(prog, W, n_el, []), opts={'poly': True, 'minmax': True, 'nsw': True, 'cov': cov}, maxpaths=60000):
        n += 1
        left = go.m.chis
        if R.alarm is not None:
            c.fail('no-fault', key + ':fault', (getattr(R.alarm, 'where', None) or [l])[0], '%s: %s' % (R.alarm, show(left[0], cls)))
            continue
        c.ok('no-fault')
        got = None if R.exc is not None else R.value
        if got is not None and any(g is None or g[0] != 'pt' for g in got):
            c.fail('hull', key + ':vertex', l, 'a vertex is not one of the points: %s' % show(left[0], cls))
            continue
        seq = None if got is None else [(g[1] + 1) * g[2] for g in got]
        for ch in left:
            want = extreme(ch, cls)
            if want is None:
                c.expect(seq is None and 'invalid_argument' in str(R.exc), 'no-hull', key + ':accepted', l, lambda: 'the points fit in no open hemisphere or lie in a plane, and the polygon %s (%s) results; %s' % (seq, R.exc, show(ch, cls)))
            elif seq is None:
                c.fail('hull', key + ':rejected', l, 'the hull is %s, and %s is thrown; %s' % (want, R.exc, show(ch, cls)))
            else:
                c.expect(rotations_equal(want, seq), 'hull', key + ':wrong', l, lambda: 'the hull is %s instead of %s; %s' % (seq, want, show(ch, cls)))
    c.partitions += n
    src_of(prog, c, cov)
    if not n:
        raise build.AnalysisError('no path of the hull computation')


def do_few(c, prog, _):
    """no points at all"""
    l = loc_of(prog, r'ConvexPolygon::ConvexPolygon\(std::vector')
    W = World(1)
    for which in (0, 1):
        def go(m):
            o = outbuf(m, 3)
            m.call('h_hull', [which, put_points(m, W, ()), 0, o])
            return 'polygon'
        for R in explore(prog, go, stubs=stubs(prog, W, 1, []), opts={'poly': True, 'nsw': True}, maxpaths=10):
            c.expect(R.alarm is None and R.exc is not None and 'invalid_argument' in str(R.exc), 'no-hull', 'empty', l, lambda: 'hull of no points: %s %s' % (R.alarm or R.exc, R.value))
    # the named constructor is the constructor
    hull(c, prog, (1, 2, 3, 4), 4, 4, complete(4, {}), 'named', 1)


def do_fix(c, prog, _):
    l = loc_of(prog, r'ConvexPolygon::ConvexPolygon\(lsst')
    for n in (3, 4):
        W = World(n)

        def go(m):
            o = outbuf(m, 3 * n + 3)
            q = m.call('h_fix', [put_points(m, W, range(1, n + 1)), n, o])
            return [W.who([getd(m, o, 3 * i + j) for j in range(3)]) for i in range(q)]
        for R in explore(prog, go, stubs=stubs(prog, W, n, []), opts={'poly': True, 'nsw': True}, maxpaths=10):
            c.expect(R.alarm is None and R.exc is None and R.value == [('pt', i, 1) for i in range(n)], 'hull', 'fixed', l, lambda: 'polygon with given vertices has %s' % (R.value,))


def do_eq(c, prog, part):
    l = loc_of(prog, r'ConvexPolygon::operator==')
    base = {t: 1 for t in itertools.combinations(range(6), 3)}
    chi = complete(6, base)
    cases = []
    for n in (3, 4, 5):
        for k in (3, 4, 5):
            seconds = {tuple(range(1, k + 1))}
            for r in range(k):
                rot = tuple((r + i) % k + 1 for i in range(k))
                seconds.add(rot)
                seconds.add(tuple(6 if x == k else x for x in rot))
                seconds.add(tuple(6 if x == 1 else x for x in rot))
            if k < 5:
                for r in itertools.permutations(range(1, k + 1)):
                    seconds.add(r)
            if k == n or k > 3:
                seconds.add(tuple(range(2, k + 2)))
            cases += [(tuple(range(1, n + 1)), s) for s in sorted(seconds)]
    for z, (a, b) in enumerate(cases):
        if z % 4 != part:
            continue
        W = World(6)

        def go(m):
            m.chis = chi
            facts(m, W)
            o = outbuf(m, 8)
            m.call('h_eq', [put_points(m, W, a), len(a), put_points(m, W, b), len(b), o])
            return [geti(m, o, i) for i in range(8)]
        x = list(a)
        y = list(b)
        if len(b) > 4:
            y = sorted(b, key=lambda q: q)
        want = int(rotations_equal(x, y))
        for R in explore(prog, go, stubs=stubs(prog, W, 6, []), opts={'poly': True, 'minmax': True, 'nsw': True}, maxpaths=200):
            c.expect(R.alarm is None and R.exc is None and R.value == [want, 1 - want, 1, 0, 1, 1, want, 1], 'equality', 'equality', l,
                     lambda: 'polygons %s and %s: ==, != and reflexivity, copy, assignment, clone are %s' % (a, b, R.alarm or R.exc or R.value))
            c.partitions += 1
