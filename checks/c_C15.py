"""C15: envelope() and interior() enclose the region from outside and inside."""
from common import *
from framework import parallel
import os
import absint

EXPLANATION = (
    'Abstract interpretation of the IR of envelope() and interior() of the three pixelizations for an unknown region: the '
    'polygon-region relation of a visited pixel (decided by C05) is a hook that may answer DISJOINT, WITHIN or neither, and the '
    'answers are enumerated over the top levels of the pixel tree (the tree itself is obtained by constant propagation and each '
    'visited polygon is matched with the polygon triangle()/quad() gives for an index). For every answer pattern: the envelope must '
    'contain every pixel not proved disjoint by an answer on the path, the interior may only contain pixels an answer proved to be '
    'within, both with equality when no range limit is given, and with a limit the number of ranges must respect it and stay inside '
    'the universe. Dispatch: each region kind must be related through the very region given (or, for an ellipse, a live circle that '
    'provably contains it / is contained in it), compound regions combine the sets of their operands with the limit respected, and '
    'unknown kinds are rejected.')
ASSUMPTIONS = ['the relation of a polygon with a region is sound (C05)', 'answer patterns: levels 0 to 2 below up to three root pixels that are not disjoint',
               'exact reals for the ellipse approximation']

HARNESS = OPAQUE_REGION + r'''
#include "lsst/sphgeom/HtmPixelization.h"
#include "lsst/sphgeom/Q3cPixelization.h"
#include "lsst/sphgeom/Mq3cPixelization.h"
extern "C" Pixelization *h_new(long k, long l) {
  if (k == 0) return new HtmPixelization(l);
  if (k == 1) return new Q3cPixelization(l);
  return new Mq3cPixelization(l); }
extern "C" Region *h_region(long k, double const *v) { UnitVector3d x = UnitVector3d::X(), y = UnitVector3d::Y(), z = UnitVector3d::Z();
  switch (k) {
  case 0: return new Circle(UnitVector3d::fromNormalized(0.6, 0.0, 0.8), 0.04);
  case 1: return new Box(NormalizedAngleInterval::fromRadians(0.5, 1.5), AngleInterval(Angle(-0.25), Angle(0.25)));
  case 2: return new ConvexPolygon(x, y, z);
  case 3: return new Ellipse(x, Angle(v[0]), Angle(v[1]), Angle(v[2]));
  default: return new Opq(k); } }
extern "C" Region *h_union(Region const *a, Region const *b) { return new UnionRegion(*a, *b); }
extern "C" Region *h_inter(Region const *a, Region const *b) { return new IntersectionRegion(*a, *b); }
extern "C" Region const *h_operand(Region const *a, long i) { return &static_cast<CompoundRegion const *>(a)->getOperand(i); }
static void put(RangeSet const &s, std::uint64_t *o) { o[0] = s.size(); long k = 1;
  for (auto const &t : s) { o[k++] = std::get<0>(t); o[k++] = std::get<1>(t); } }
extern "C" void h_universe(Pixelization const *p, std::uint64_t *o) { put(p->universe(), o); }
extern "C" long h_find(Pixelization const *p, Region const *r, unsigned long n, long inside, std::uint64_t *o) {
  try { RangeSet s = inside ? p->interior(*r, n) : p->envelope(*r, n); put(s, o); return s.isValid() ? 1 : 0;
  } catch (std::runtime_error const &) { return 2; } }
extern "C" long h_verts(long k, long l, std::uint64_t i, double *o) {
  ConvexPolygon p = k == 0 ? HtmPixelization::triangle(i) : k == 1 ? Q3cPixelization(l).quad(i) : Mq3cPixelization::quad(i);
  long n = 0; for (UnitVector3d const &v : p.getVertices()) { o[n++] = v.x(); o[n++] = v.y(); o[n++] = v.z(); } return n; }
extern "C" void h_circle(Circle const *c, double *o) { o[0] = c->getCenter().x(); o[1] = c->getCenter().y(); o[2] = c->getCenter().z();
  o[3] = c->getSquaredChordLength(); o[4] = c->getOpeningAngle().asRadians(); }
'''
PX = ['HtmPixelization', 'Q3cPixelization', 'Mq3cPixelization']
FIRST = [8, 0, 10]
NROOT = [8, 6, 6]
KINDS = ['Circle', 'Box', 'ConvexPolygon', 'Ellipse']


class X:
    pass


def call_ints(m, fn, args, n):
    o = Ptr(Obj('out', 8 * n, 'heap'), 0)
    r = m.call(fn, args + [o])
    return r, o


def ranges(m, o):
    n = geti(m, o, 0)
    r = [(geti(m, o, 1 + 2 * i), geti(m, o, 2 + 2 * i)) for i in range(n)]
    return [(a, b if b else 2 ** 64) for a, b in r]


def leaves(k, i, l, L):
    s = 2 * (L - l)
    return range(i << s, (i + 1) << s)


def polygons(prog, k, L):
    """index of every pixel of level <= L by (rounded) vertices"""
    out = {}
    for l in range(L + 1):
        for i in range(FIRST[k] << 2 * l, (FIRST[k] + NROOT[k]) << 2 * l):
            m = Machine(prog)
            n, o = call_ints(m, 'h_verts', [k, l, i], 16)
            out[(l, i)] = [getd(m, o, j) for j in range(n)]
    return out, {rounded(v[3 * j:] + v[:3 * j]): key for key, v in out.items() for j in range(len(v) // 3)}


def rounded(v):
    return tuple(round(x, 9) + 0.0 for x in v)


def pixel_of(table, v):
    if not all(isinstance(p, float) for p in v):
        return None
    k = table[1].get(rounded(v))
    if k is not None:
        return k
    for key, w in table[0].items():
        if len(w) == len(v):
            for j in range(0, len(v), 3):
                if all(abs(p - q) < 1e-12 for p, q in zip(v, w[j:] + w[:j])):
                    return key
    return None


def run(chk):
    x = X()
    x.thorough = chk.thorough
    x.prog = prog = Program(build.build_ir(HARNESS, 'C15', entry_prefix='h_'))
    x.rel = {}
    for j, kd in enumerate(KINDS[:3]):
        for n in symbols(prog, r'detail::relate<.*UnitVector3d const\*.*>\(.*UnitVector3d const\*, lsst::sphgeom::UnitVector3d const\*, lsst::sphgeom::%s const&\)' % kd):
            x.rel[n] = j
    if not x.rel:
        raise build.AnalysisError('the pixel finders do not relate pixels to regions through detail::relate')
    L2 = 2
    x.poly = [polygons(prog, k, L2) for k in range(3)]
    x.where = loc_of(prog, r'detail::PixelFinder<.*HtmPixelFinder.*::visit\(')
    items = []
    part = os.environ.get('C15')
    for k in range(3):
        for ins in (0, 1):
            for cap in (0, 1, 2, 3):
                for s in range(6):
                    items.append(('tree', k, ins, cap, 1, s))
                items.append(('tree', k, ins, cap, 2, 0))
                items.append(('tree', k, ins, cap, 2, 1))
                items.append(('tree', k, ins, cap, 0, 0))
            for kd in range(3):
                items.append(('kind', k, ins, kd))
            for e in range(3):
                items.append(('ellipse', k, ins, e))
            for op in (0, 1):
                for cap in (0, 1, 2):
                    for s in range(6 if chk.thorough else 4):
                        items.append(('compound', k, ins, op, cap, s))
            items.append(('unknown', k, ins))
    if part:
        items = [i for i in items if i[0] in part.split(',')]

    def one(c, it):
        globals()['do_' + it[0]](c, x, *it[1:])
    parallel(chk, items, one)
    if not part:
        chk.need('envelope-complete', 500)
        chk.need('interior-sound', 500)


def hook(x, k, L, answer, log):
    """stub for detail::relate: answer(level, index) in 'DWI'"""
    table = x.poly[k]

    def mk(kd):
        def st(m, a):
            n = 3 if k == 0 else 4
            if not isinstance(a[0], Ptr) or a[0].obj is None:
                raise Alarm('oob', 'null pixel')
            v = [m.load(Ptr(a[0].obj, a[0].off + 8 * i), ['d'], 8) for i in range(3 * n)]
            if not (isinstance(a[1], Ptr) and a[1].obj is a[0].obj and a[1].off - a[0].off == 24 * n):
                log.append(('bad', 'the vertex range passed to relate() does not hold %d vertices' % n))
                return DISJOINT
            hit = pixel_of(table, v)
            if hit is None:
                log.append(('bad', 'a polygon that is not a pixel of level <= %d is related to the region' % L))
                return DISJOINT
            if not a[2].obj.alive:
                log.append(('bad', 'the region related to the pixels is no longer alive'))
            ans = answer(m, hit[0], hit[1])
            snap = None
            if kd == 0 and a[2].obj.alive:
                o = Ptr(Obj('out', 64, 'heap'), 0)
                m.call('h_circle', [a[2], o])
                snap = [getd(m, o, i) for i in range(5)]
            log.append(('rel', hit[0], hit[1], ans, kd, a[2], snap))
            return {'D': DISJOINT, 'W': WITHIN, 'I': 0}[ans]
        return st
    return {n: mk(kd) for n, kd in x.rel.items()}


def judge(c, x, k, L, ins, cap, R, key, log, S, uni, ok):
    where = loc_of(x.prog, r'sphgeom::%s::_%s\(' % (PX[k], 'interior' if ins else 'envelope'))
    tag = '%s::%s level %d maxRanges %d' % (PX[k], 'interior' if ins else 'envelope', L, cap)
    pat = ' '.join('%d:%d=%s' % (l[1], l[2], l[3]) for l in log if l[0] == 'rel' and l[3] != 'D')
    bad = [l[1] for l in log if l[0] == 'bad']
    c.expect(not bad, 'visits-pixels', key + '|visit', where, lambda: '%s: %s' % (tag, bad[0]))
    state = {}
    for l in log:
        if l[0] == 'rel':
            for i in leaves(k, l[2], l[1], L):
                if l[3] != 'I' or l[1] == L:
                    state[i] = l[3]
    got = set()
    for a, b in S:
        if b - a > 4096:
            got = None
            break
        got.update(range(a, b))
    c.expect(got is not None and got <= uni, 'inside-universe', key + '|universe', where, lambda:
             '%s: %s has indexes outside the universe; pixel answers %s' % (tag, S[:4], pat))
    if got is None:
        return
    c.expect(ok == 1, 'valid-set', key + '|valid', where, tag + ': the RangeSet violates its invariants')
    if cap:
        c.expect(len(S) <= cap, 'range-limit', key + '|cap', where, lambda: '%s: %d ranges are returned; pixel answers %s' % (tag, len(S), pat))
    maybe = {i for i in uni if state.get(i) != 'D'}
    sure = {i for i in uni if state.get(i) == 'W'}
    if ins:
        c.expect(got <= sure, 'interior-sound', key + '|sound', where, lambda:
                 '%s: pixels %s are returned although nothing shows they are inside the region; pixel answers %s' % (tag, sorted(got - sure)[:5], pat))
        if not cap:
            c.expect(got >= sure, 'interior-exact', key + '|exact', where, lambda:
                     '%s: pixels %s were found to be inside the region and are missing; pixel answers %s' % (tag, sorted(sure - got)[:5], pat))
    else:
        c.expect(got >= maybe, 'envelope-complete', key + '|complete', where, lambda:
                 '%s: pixels %s are missing although nothing shows they are disjoint from the region; pixel answers %s' % (tag, sorted(maybe - got)[:5], pat))
        if not cap:
            c.expect(got <= maybe, 'envelope-exact', key + '|exact', where, lambda:
                     '%s: pixels %s are returned although they are disjoint from the region; pixel answers %s' % (tag, sorted(got - maybe)[:5], pat))


def universe(x, k, L):
    return set(range(FIRST[k] << 2 * L, (FIRST[k] + NROOT[k]) << 2 * L))


def explore_find(c, x, k, L, ins, cap, mkregion, answer, key, extra=None, maxpaths=60000, stubs=None, opts=None):
    log = []
    st = hook(x, k, L, answer, log)
    st.update(v_clone=lambda m, a: None, v_dtor=lambda m, a: None)
    st.update(stubs or {})
    where = loc_of(x.prog, r'sphgeom::%s::_%s\(' % (PX[k], 'interior' if ins else 'envelope'))
    cov = set()
    uni = universe(x, k, L)

    def go(m):
        log.clear()
        r = mkregion(m)
        p = m.call('h_new', [k, L])
        ok, o = call_ints(m, 'h_find', [p, r, cap, ins], 600)
        return (r, ok, ranges(m, o) if ok != 2 else None, list(log))
    for R in explore(x.prog, go, stubs=st, opts=dict({'cov': cov, 'poly': True}, **(opts or {})), maxpaths=maxpaths):
        c.partitions += 1
        if R.exc or R.alarm:
            kind = R.alarm.kind if R.alarm else 'exc'
            if kind == 'steps':
                c.fail('terminates', key + '|steps', where, 'no result; %s' % R.path(6))
            else:
                c.fail('no-error', key + '|' + kind, where, '%s level %d maxRanges %d: %s; %s' % (PX[k], L, cap, R.exc or R.alarm, R.path(6)))
            continue
        r, ok, S, lg = R.value
        if ok == 2:
            c.fail('no-error', key + '|rejected', where, '%s: a supported region is rejected' % PX[k])
            continue
        judge(c, x, k, L, ins, cap, R, key, lg, S, uni, ok)
        if extra:
            extra(R, r, lg)
    src_of(x.prog, c, cov)


def do_tree(c, x, k, ins, cap, L, slice_):
    f, n = FIRST[k], NROOT[k]
    # which roots may be other than disjoint
    if L == 0:
        roots = set(range(f, f + n))
    elif L == 1:
        roots = [{f, f + 1}, {f, f + n - 1}, {f + 1, f + 2}, {f + 2, f + n - 2}, {f + 3, f + 4}, {f, f + 2, f + n - 1}][slice_]
    else:
        roots = [{f, f + n - 1}, {f + 2, f + 3}][slice_]
    few = len(roots) > 2

    def answer(m, l, i):
        if l > L:
            return 'D'
        if L == 0:
            return 'DI'[m.choose(2, 'pixel %d' % i)] if not ins else 'DWI'[m.choose(3, 'pixel %d' % i)] if i < f + 4 else 'DW'[m.choose(2, 'pixel %d' % i)]
        if l == 0:
            if i not in roots:
                return 'D'
            return 'DWI'[m.choose(3, 'root %d' % i)]
        j = i & 3
        if L == 1:
            if few and i & 1 or j == 2 and not x.thorough:
                return 'D'
            return 'DWI'[m.choose(3, 'pixel %d' % i)] if j == 1 else ('DW' if ins else 'DI')[m.choose(2, 'pixel %d' % i)]
        if l == 1:
            if i >> 2 != min(roots):
                return 'DW'[m.choose(2, 'pixel %d' % i)] if j == 0 or x.thorough else 'D'
            if j & 1:
                return 'DWI'[m.choose(3, 'pixel %d' % i)]
            return 'DW'[m.choose(2, 'pixel %d' % i)] if x.thorough else 'W' if j else 'D'
        return ('DW' if ins else 'DI')[m.choose(2, 'pixel %d' % i)] if j in (0, 3) else 'W' if i & 4 else 'D'

    explore_find(c, x, k, L, ins, cap, lambda m: m.call('h_region', [0, NULL]), answer,
                 '%s|%s|%s' % (PX[k], 'interior' if ins else 'envelope', 'limit' if cap else 'nolimit'))


def do_kind(c, x, k, ins, kd):
    """the region given is the one related"""
    where = loc_of(x.prog, r'sphgeom::%s::_%s\(' % (PX[k], 'interior' if ins else 'envelope'))

    def extra(R, r, lg):
        rel = [l for l in lg if l[0] == 'rel']
        c.expect(rel and all(l[4] == kd and l[5].obj is r.obj for l in rel), 'region-given', 'kind|%s' % KINDS[kd], where,
                 lambda: '%s: pixels are not compared with the %s given' % (PX[k], KINDS[kd]))

    def answer(m, l, i):
        if l == 0:
            return 'DWI'[m.choose(3, 'root %d' % i)] if i == FIRST[k] + 1 else 'D'
        return 'DW'[m.choose(2, 'pixel %d' % i)] if i & 1 else 'D'
    for cap in (0, 1):
        explore_find(c, x, k, 1, ins, cap, lambda m: m.call('h_region', [kd, NULL]), answer, 'kind|%s' % KINDS[kd], extra)


def do_ellipse(c, x, k, ins, e):
    """the circle standing for an ellipse contains it / lies inside it"""
    where = loc_of(x.prog, r'sphgeom::%s::_%s\(' % (PX[k], 'interior' if ins else 'envelope'))
    F = Fraction
    rng = [(F(1, 2), F(1), F(1, 10), F(1, 3)), (F(1, 10), F(1, 3), F(1, 2), F(1)), (F(2), F(5, 2), F(26, 10), F(3))][e]

    def mk(m):
        b = Obj('in', 24, 'heap')
        m.alpha, m.beta = sym('alpha', rng[0], rng[1]), sym('beta', rng[2], rng[3])
        for i, v in enumerate((m.alpha, m.beta, 0.5)):
            b.cells[8 * i] = (8, v)
        return m.call('h_region', [3, Ptr(b, 0)])
    info = {}

    def scl(m, a):
        info['angle'] = a[0]
        v = m.datom('chord', (P(a[0]),), 0, 4, False)
        info.setdefault('of', {})[repr(v)] = a[0]
        return v

    def answer(m, l, i):
        return 'DW'[m.choose(2, 'root')] if i == FIRST[k] else 'D'

    def extra(R, r, lg):
        m = R.m
        rel = [l for l in lg if l[0] == 'rel']
        ok = rel and all(l[4] == 0 for l in rel)
        c.expect(ok, 'ellipse-by-circle', 'ellipse|kind', where, 'an ellipse is not related through a circle')
        if not ok or any(l[0] == 'bad' for l in lg):
            return
        cen, sc, ang = rel[0][6][:3], rel[0][6][3], rel[0][6][4]
        c.expect(all(isinstance(z, float) or z.is_const() for z in cen) and abs(float(P(cen[0]).cval()) - 1) < 1e-9, 'ellipse-center', 'ellipse|center', where,
                 lambda: 'the circle is not centered on the ellipse: %s' % (cen,))
        for n, ax in (('alpha', m.alpha), ('beta', m.beta)):
            d = P(ang).add(P(ax), -1)
            s = m.signs(d)
            c.expect((1 not in s) if ins else (-1 not in s), 'ellipse-radius', 'ellipse|radius', where, lambda:
                     'the circle used for %s has opening angle %s, which need not be %s the semi-axis %s' % (
                         'interior' if ins else 'envelope', ang, 'below' if ins else 'above', n))
        c.expect(repr(sc) in info.get('of', {}) and m.signs(P(info['of'][repr(sc)]).add(P(ang), -1)) == {0}, 'ellipse-radius', 'ellipse|chord', where,
                 'the squared chord length of the circle does not belong to its opening angle')
    stubs = {}
    stubs.update(stub_map(x.prog, {r'Circle::squaredChordLengthFor\(': scl}))
    explore_find(c, x, k, 0, ins, 0, mk, answer, 'ellipse', extra, stubs=stubs)


def do_compound(c, x, k, ins, op, cap, slice_):
    """union: join, intersection: intersection of the operands' sets"""
    L = 1
    f, n = FIRST[k], NROOT[k]
    where = loc_of(x.prog, r'sphgeom::%s::_%s\(' % (PX[k], 'interior' if ins else 'envelope'))
    tag = '%s::%s of %s, maxRanges %d' % (PX[k], 'interior' if ins else 'envelope', ('a union', 'an intersection')[op], cap)
    uni = universe(x, k, L)
    r1 = [{f, f + 1}, {f}, {f + 2}, {f + 3, f + 5}, {f, f + 1}, {f, f + n - 1}][slice_]
    r2 = [{f + 1}, {f + n - 1}, {f + 2}, {f + 4}, {f + 1, f + 2}, {f, f + n - 1}][slice_]
    log = []

    def answer(m, l, i, kd=None):
        return None

    table = x.poly[k]
    state = {}

    def find(a, m):
        nn = 3 if k == 0 else 4
        v = [m.load(Ptr(a[0].obj, a[0].off + 8 * i), ['d'], 8) for i in range(3 * nn)]
        return pixel_of(table, v)

    def mk(kd):
        def st(m, a):
            h = find(a, m)
            if h is None:
                log.append(('bad', 'not a pixel'))
                return DISJOINT
            l, i = h
            if kd > 1:
                log.append(('bad', 'related to something else than the operands'))
                return DISJOINT
            key = (kd, l, i)
            if key not in state:
                if l == 0:
                    state[key] = 'DWI'[m.choose(3, 'operand %d, root %d' % (kd, i))] if i in (r1, r2)[kd] else 'D'
                else:
                    state[key] = 'DWI'[m.choose(3, 'operand %d, pixel %d' % (kd, i))] if i & 3 == 1 else 'W' if i & 3 == 2 else 'D'
            log.append(('rel', l, i, state[key], kd))
            return {'D': DISJOINT, 'W': WITHIN, 'I': 0}[state[key]]
        return st
    st = {nme: mk(kd) for nme, kd in x.rel.items()}
    st.update(v_clone=lambda m, a: None, v_dtor=lambda m, a: None)

    def go(m):
        log.clear()
        state.clear()
        a, b = m.call('h_region', [0, NULL]), m.call('h_region', [1, NULL])
        r = m.call('h_inter' if op else 'h_union', [a, b])
        p = m.call('h_new', [k, L])
        ok, o = call_ints(m, 'h_find', [p, r, cap, ins], 600)
        return ok, ranges(m, o) if ok != 2 else None, list(log)
    cov = set()
    for R in explore(x.prog, go, stubs=st, opts={'cov': cov}, maxpaths=60000):
        c.partitions += 1
        if R.exc or R.alarm:
            c.fail('no-error', 'compound|error', where, '%s: %s; %s' % (tag, R.exc or R.alarm, R.path(6)))
            continue
        ok, S, lg = R.value
        pat = ' '.join('op%d %d:%d=%s' % (l[4], l[1], l[2], l[3]) for l in lg if l[0] == 'rel' and l[3] != 'D')
        bad = [l[1] for l in lg if l[0] == 'bad']
        if not c.expect(ok == 1 and not bad, 'compound-handled', 'compound|bad', where, lambda: '%s: %s' % (tag, bad or 'rejected or invalid set')):
            continue
        got = set()
        for a, b in S:
            got.update(range(a, min(b, a + 4096)))
        stt = [{}, {}]
        for l in lg:
            for i in leaves(k, l[2], l[1], L):
                if l[3] != 'I' or l[1] == L:
                    stt[l[4]][i] = l[3]
        may = [{i for i in uni if stt[j].get(i) != 'D'} for j in (0, 1)]
        sure = [{i for i in uni if stt[j].get(i) == 'W'} for j in (0, 1)]
        wm = may[0] & may[1] if op else may[0] | may[1]
        ws = sure[0] & sure[1] if op else sure[0] | sure[1]
        c.expect(got <= uni, 'inside-universe', 'compound|universe', where, lambda: '%s: indexes outside the universe' % tag)
        if cap:
            c.expect(len(S) <= cap, 'range-limit', 'compound|cap', where, lambda: '%s: %d ranges; %s' % (tag, len(S), pat))
        if ins:
            c.expect(got <= ws, 'interior-sound', 'compound|sound', where, lambda: '%s: %s may not be inside; %s' % (tag, sorted(got - ws)[:5], pat))
            if not cap:
                c.expect(got == ws, 'interior-exact', 'compound|exact', where, lambda: '%s: %s are missing; %s' % (tag, sorted(ws - got)[:5], pat))
        else:
            c.expect(got >= wm, 'envelope-complete', 'compound|complete', where, lambda: '%s: %s may intersect and are missing; %s' % (tag, sorted(wm - got)[:5], pat))
            if not cap:
                c.expect(got == wm, 'envelope-exact', 'compound|exact', where, lambda: '%s: %s cannot intersect; %s' % (tag, sorted(got - wm)[:5], pat))
    src_of(x.prog, c, cov)


def do_unknown(c, x, k, ins):
    where = loc_of(x.prog, r'sphgeom::%s::_%s\(' % (PX[k], 'interior' if ins else 'envelope'))

    def go(m):
        p = m.call('h_new', [k, 1])
        return call_ints(m, 'h_find', [p, m.call('h_region', [7, NULL]), 0, ins], 600)[0]
    for R in explore(x.prog, go, stubs={'v_clone': lambda m, a: None, 'v_dtor': lambda m, a: None}, opts={}):
        c.expect(not R.exc and not R.alarm and R.value == 2, 'unknown-kind', 'unknown', where,
                 lambda: 'a region of unknown kind gives %s' % (R.exc or R.alarm or R.value,))
