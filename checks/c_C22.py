"""C22: NaN and infinite arguments harm nothing."""
import itertools
import math
from common import *
from framework import parallel
from absint import tobits

EXPLANATION = (
    'Abstract interpretation of the IR, with and without SIMD, with NaN and infinities in every combination of argument positions and unknown finite values elsewhere: '
    'pixel indexes, orientations, construction, membership, relations, bounding regions and serialisation of boxes, circles, ellipses, polygons and compound regions, pixel searches and chunk searches. '
    'Every memory access, every shift, every conversion of floating point to integer and every division is checked on every path, and paths are bounded.')
ASSUMPTIONS = ['finite components are bounded by 4 in magnitude']

HARNESS = r'''
#include <stdexcept>
#include <vector>
#include "lsst/sphgeom/HtmPixelization.h"
#include "lsst/sphgeom/Q3cPixelization.h"
#include "lsst/sphgeom/Mq3cPixelization.h"
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/Circle.h"
#include "lsst/sphgeom/Ellipse.h"
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/Box3d.h"
#include "lsst/sphgeom/CompoundRegion.h"
#include "lsst/sphgeom/Chunker.h"
#include "lsst/sphgeom/orientation.h"
#include "lsst/sphgeom/utils.h"
using namespace lsst::sphgeom;
static UnitVector3d uv(double const *v) { return UnitVector3d::fromNormalized(v[0], v[1], v[2]); }
extern "C" std::uint64_t h_index(int kind, int L, double const *v) {
  UnitVector3d u = uv(v); std::uint64_t r = 0;
  if (kind == 0) { HtmPixelization p(L); r = p.index(u); } else if (kind == 1) { Q3cPixelization p(L); r = p.index(u); } else { Mq3cPixelization p(L); r = p.index(u); }
  return r; }
extern "C" int h_orient(int kind, double const *v) {
  switch (kind) {
    case 0: return orientation(uv(v), uv(v + 3), uv(v + 6));
    case 1: return orientationExact(Vector3d(v[0], v[1], v[2]), Vector3d(v[3], v[4], v[5]), Vector3d(v[6], v[7], v[8]));
    case 2: return orientationX(uv(v), uv(v + 3));
    case 3: return orientationY(uv(v), uv(v + 3));
    default: return orientationZ(uv(v), uv(v + 3));
  } }
static std::unique_ptr<Region> mk(int kind, double const *v) {
  switch (kind) {
    case 0: return std::make_unique<Box>(NormalizedAngleInterval(NormalizedAngle(v[0]), NormalizedAngle(v[1])), AngleInterval(Angle(v[2]), Angle(v[3])));
    case 1: return std::make_unique<Circle>(uv(v), v[3]);
    case 2: return std::make_unique<Ellipse>(uv(v), uv(v + 3), Angle(v[6]));
    case 3: return std::make_unique<ConvexPolygon>(uv(v), uv(v + 3), uv(v + 6));
    case 4: return std::make_unique<Ellipse>(uv(v), Angle(v[3]), Angle(v[4]), Angle(v[5]));
    case 5: return std::make_unique<Circle>(uv(v), Angle(v[3]));
    default: { std::vector<UnitVector3d> p{uv(v), uv(v + 3), uv(v + 6), UnitVector3d::Z()}; return std::make_unique<ConvexPolygon>(p); }
  } }
static double sink(std::vector<std::uint8_t> const &v) { double s = 0; for (auto b : v) s += b; return s; }
extern "C" long h_unary(int kind, double const *v, double const *w, double *o) {
  std::unique_ptr<Region> r = mk(kind, v);
  o[0] = r->contains(uv(w)); o[1] = r->contains(w[0], w[1], w[2]); o[2] = r->contains(w[0], w[1]);
  Box b = r->getBoundingBox(); Circle c = r->getBoundingCircle(); Box3d b3 = r->getBoundingBox3d();
  o[3] = b.getLon().getA().asRadians(); o[4] = c.getSquaredChordLength(); o[5] = b3.x().getA();
  std::unique_ptr<Region> z = r->clone(); std::vector<std::uint8_t> e = z->encode(); std::unique_ptr<Region> d = Region::decode(e.data(), e.size());
  o[6] = d->contains(uv(w));
  UnionRegion u(*r, *z); IntersectionRegion i(*r, b); o[7] = u.contains(uv(w)); o[8] = i.contains(uv(w)); u.getBoundingBox(); i.getBoundingCircle();
  return e.size();
}
extern "C" long h_edit(int kind, double const *v, double const *w, double *o) {
  std::unique_ptr<Region> r = mk(kind, v);
  if (auto *b = dynamic_cast<Box *>(r.get())) { b->dilateBy(Angle(w[0])); b->erodeBy(Angle(w[1]), Angle(w[2])); b->expandTo(LonLat(NormalizedAngle(w[0]), Angle(w[1]))); o[0] = b->getArea(); o[1] = b->getCenter().getLon().asRadians();
    o[2] = b->expandedTo(*b).getHeight().asRadians(); o[3] = b->clippedTo(Box::full()).getWidth().asRadians(); }
  if (auto *c = dynamic_cast<Circle *>(r.get())) { c->dilateBy(Angle(w[0])); c->expandTo(uv(w)); c->clipTo(Circle(uv(w), 1.0)); c->complement(); c->erodeBy(Angle(w[2])); o[0] = c->getArea(); o[1] = c->expandedTo(Circle(uv(w), w[1])).getOpeningAngle().asRadians(); }
  if (auto *e = dynamic_cast<Ellipse *>(r.get())) { o[0] = e->getBoundingCircle().getSquaredChordLength(); e->complement(); o[1] = e->contains(uv(w)); o[2] = e->getF1()(0); }
  if (auto *p = dynamic_cast<ConvexPolygon *>(r.get())) { UnitVector3d c = p->getCentroid(); o[0] = c(0); o[1] = p->getBoundingBox().getWidth().asRadians(); }
  return 0;
}
extern "C" long h_binary(int ka, double const *v, int kb, double const *w) {
  std::unique_ptr<Region> a = mk(ka, v), b = mk(kb, w);
  return a->relate(*b).to_ulong() | b->relate(*a).to_ulong() << 8;
}
extern "C" std::uint64_t h_find(int pix, int L, int interior, int kind, double const *v, std::uint64_t *o) {
  std::unique_ptr<Region> r = mk(kind, v); RangeSet s;
  auto f = [&](Pixelization const &p) { s = interior ? p.interior(*r) : p.envelope(*r); o[0] = s.isWithin(p.universe()); };
  if (pix == 0) f(HtmPixelization(L)); else if (pix == 1) f(Q3cPixelization(L)); else f(Mq3cPixelization(L));
  return s.size();
}
extern "C" std::uint64_t h_chunks(int kind, double const *v) {
  std::unique_ptr<Region> r = mk(kind, v); Chunker c(3, 1); std::uint64_t n = c.getChunksIntersecting(*r).size();
  for (auto const &s : c.getSubChunksIntersecting(*r)) n += s.subChunkIds.size();
  return n;
}
'''
KIND = ['HtmPixelization', 'Q3cPixelization', 'Mq3cPixelization']
ROOT0 = [8, 0, 10]
NROOT = [8, 6, 6]
MAXL = [24, 30, 30]


def special(n, finite, kinds=(NAN, INF, -INF, None)):
    """all positions of special values, at least one of them; None: a finite value"""
    for t in itertools.product(kinds, repeat=n):
        if any(x is not None for x in t):
            yield [finite(i) if x is None else x for i, x in enumerate(t)]


def put(m, vals):
    b = Obj('in', 8 * len(vals), 'heap')
    for i, x in enumerate(vals):
        m.store(Ptr(b, 8 * i), x, ['d'], 8)
    return Ptr(b, 0)


def any_orientation(prog):
    def f(m, a):
        return (0, 1, 0xffffffff)[m.choose(3, 'orientation')]
    return stub_map(prog, {r'sphgeom::orientation[XYZ]?\(lsst': f})


def frexp(m, a):
    x = a[0]
    if not isinstance(x, float):
        raise build.AnalysisError('frexp of an unknown value')
    f, e = math.frexp(x) if math.isfinite(x) else (x, 0)
    m.store(a[1], e & 0xffffffff, ['i', 32], 4)
    return f


def each(c, prog, go, key, where, opts, maxpaths=20000, stubs=()):
    cov = set()
    for R in explore(prog, go, stubs=dict({'frexp': frexp}, **dict(stubs)), opts=dict({'poly': True, 'nsw': True, 'minmax': True, 'cov': cov}, **opts), maxpaths=maxpaths):
        c.partitions += 1
        if R.alarm is not None:
            c.fail('no-fault', key, (getattr(R.alarm, 'where', None) or [where])[0], '%s: %s; %s' % (key, R.alarm, R.path(6)))
            continue
        c.ok('no-fault')
        yield R
    src_of(prog, c, cov)


def run(chk):
    progs = {}
    for defs, tag in (((), 'simd'), (('NO_SIMD',), 'scalar')):
        progs[tag] = Program(build.build_ir(HARNESS, 'C22' + tag, defs=defs))
    items = []
    for tag in progs:
        items += [('index', tag, kind, L) for kind in range(3) for L in ((0, 1, 2) if kind == 0 else (0, 1, MAXL[kind]))]

    for tag in progs:
        items += [('orient', tag, k) for k in range(5)]

        items += [(op, tag, k) for op in ('unary', 'edit', 'chunks') for k in range(7)] + [('binary', tag, k, j) for k in range(7) for j in range(7)]
        items += [('find', tag, k, pix) for k in range(7) for pix in range(3)]

    def one(c, it):
        globals()['do_' + it[0]](c, progs[it[1]], *it[1:])
    parallel(chk, items, one)
    chk.need('no-fault', 10000)
    chk.need('universe', 500)
    chk.need('index-or-error', 5000)


def do_index(c, prog, tag, kind, L):
    w = loc_of(prog, r'%s::index\(' % KIND[kind])
    key = '%s.index:%s' % (KIND[kind], tag)
    for v in special(3, lambda i: sym('xyz'[i], -4, 4)):
        def go(m):
            return m.call('h_index', [kind, L, put(m, v)])
        for R in each(c, prog, go, key, w, {'bitlazy': True, 'bitpoly': True}, stubs=any_orientation(prog)):
            if R.exc is not None:
                c.ok('index-or-error')
                continue
            i = R.value
            lo, hi = ROOT0[kind] << 2 * L, ROOT0[kind] + NROOT[kind] << 2 * L
            b = m_bits(i)
            c.expect(lo <= b[0] and b[1] < hi, 'index-or-error', key, w, lambda: '%s at level %d of %s returns %s, which is no pixel' % (key, L, v, i))


def m_bits(v):
    b = tobits(v, 64) if not isinstance(v, int) else None
    if b is None:
        return v, v
    lo = hi = 0
    for k, x in enumerate(b):
        lo |= (1 << k) if x == 1 else 0
        hi |= 0 if x == 0 else 1 << k
    return lo, hi


def do_orient(c, prog, tag, kind):
    w = loc_of(prog, (r'sphgeom::orientation\(', r'sphgeom::orientationExact\(', r'sphgeom::orientationX\(', r'sphgeom::orientationY\(', r'sphgeom::orientationZ\(')[kind])
    n = 9 if kind < 2 else 6
    for pos in range(n):
        for x in (NAN, INF, -INF):
            for others in ((0.5, -0.25, 0.125), (INF, 1.0, 0.0), (NAN, 2.0, -INF)):
                v = [x if i == pos else others[i % 3] * (1 + i // 3) for i in range(n)]
                for R in each(c, prog, lambda m: m.call('h_orient', [kind, put(m, v)]), 'orientation:%d:%s' % (kind, tag), w, {}):
                    if R.exc is None:
                        c.expect(R.value in (0, 1, 2**32 - 1), 'sign', 'orientation:%d:%s' % (kind, tag), w, lambda: 'orientation of %s is %s' % (v, R.value))


SAMPLE = [(0.1, 6.0, -0.5, 0.75), (0.6, -0.64, 0.48, 1.5), (1.0, 0.0, 0.0, 0.6, 0.8, 0.0, 1.0), (1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0), (0.0, 0.6, 0.8, 0.5, 0.25, 1.0),
          (0.0, -1.0, 0.0, 2.5), (1.0, 0.0, 0.0, 0.0, 1.0, 0.0, -0.6, 0.48, -0.64)]
REGION = ['Box', 'Circle', 'Ellipse (foci)', 'ConvexPolygon', 'Ellipse (axes)', 'Circle (angle)', 'ConvexPolygon (points)']


def spoiled(k):
    """the arguments of a region with NaN or an infinity in one position, in all, or in none"""
    s = SAMPLE[k]
    yield None, s
    for x in (NAN, INF, -INF):
        for i in range(len(s)):
            yield (i, x), s[:i] + (x,) + s[i + 1:]
        yield ('all', x), (x,) * len(s)


def do_unary(c, prog, tag, k, fn='h_unary'):
    for what, v in spoiled(k):
        for w in ((0.6, 0.0, 0.8), (NAN, 0.5, 0.5), (INF, -INF, 1.0), (0.25, NAN, INF)):
            if what is None and w[0] == 0.6:
                continue
            for R in each(c, prog, lambda m: m.call(fn, [k, put(m, v), put(m, w), outbuf(m, 10)]), '%s:%s:%s' % (fn[2:], REGION[k], tag), REGION[k], {}):
                c.expect(R.exc is not None or isinstance(R.value, int), 'done', 'value', REGION[k], 'no value')


def do_edit(c, prog, tag, k):
    do_unary(c, prog, tag, k, 'h_edit')


def do_chunks(c, prog, tag, k):
    for what, v in spoiled(k):
        for R in each(c, prog, lambda m: m.call('h_chunks', [k, put(m, v)]), 'chunks:%s:%s' % (REGION[k], tag), REGION[k], {'maxsteps': 3000000}):
            pass


def do_binary(c, prog, tag, k, j):
    for what, v in spoiled(k):
        for what2, w in spoiled(j):
            if what is None and what2 is None or what2 is not None and what is not None and what[1] == what[1]:
                continue
            for R in each(c, prog, lambda m: m.call('h_binary', [k, put(m, v), j, put(m, w)]), 'relate:%s:%s:%s' % (REGION[k], REGION[j], tag), REGION[k], {}):
                c.expect(R.exc is not None or isinstance(R.value, int) and R.value & ~0x707 == 0, 'done', 'relate', REGION[k], 'no relation')


def do_find(c, prog, tag, k, pix):
    for what, v in spoiled(k):
        if what is None or what[0] not in (0, 3, 'all') and not c.thorough:
            continue
        for interior in (0, 1):
            def go(m):
                o = outbuf(m, 1)
                m.call('h_find', [pix, 2 if c.thorough else 1, interior, k, put(m, v), o])
                return geti(m, o, 0)
            for R in each(c, prog, go, 'find:%s:%s:%s' % (KIND[pix], REGION[k], tag), REGION[k], {'maxsteps': 3000000}):
                c.expect(R.exc is not None or R.value == 1, 'universe', 'find:%s:%s' % (KIND[pix], REGION[k]), REGION[k], lambda: 'pixels outside of the universe are found for %s' % (v,))
