"""C19: Chunker."""
import math
from common import *
from framework import parallel
from absint import Infeasible
from c_C16 import Ctx, std_minmax, buf, sgn, sub, ge, TINY, FPI, PI, F, isnum

EXPLANATION = (
    'Abstract interpretation of Chunker with an opaque region: its bounding box has unknown bounds inside one cell (or exactly on a '
    'cell boundary) at either end of each axis, and its relation to every chunk and sub-chunk box is an analysis hook whose answers are '
    'enumerated as patterns. The chunks and sub-chunks returned must be exactly those not found disjoint among (at least) the cells meeting the bounding '
    'box, each once and with the documented identifier. Constructor arguments are unknown integers in each documented class. '
    'Signed overflow, conversions out of range and accesses out of bounds on any path are violations.')
ASSUMPTIONS = ['configurations of up to 6 stripes and 3 sub-stripes, 85 by 12 for identifiers and cell boxes',
               'answers of the region relation are patterns over the cells', 'box operations (C02, C16)']

def lds(m, p, n):
    """doubles at p, constants as floats"""
    out = []
    for i in range(n):
        x = m.load(Ptr(p.obj, p.off + 8 * i), ['d'], 8)
        out.append(float(x.cval()) if not isinstance(x, float) and P(x).is_const() else x)
    return out


HARNESS = OPAQUE_REGION + r'''
#include "lsst/sphgeom/Chunker.h"
extern "C" Chunker *h_make(int n, int m) { return new Chunker(n, m); }
extern "C" void h_dims(Chunker const *c, long *o) { o[0] = c->getNumStripes(); o[1] = c->getNumSubStripesPerStripe(); }
static long put(std::vector<std::int32_t> const &v, long *o) { for (size_t i = 0; i < v.size(); ++i) o[i] = v[i]; return v.size(); }
extern "C" long h_all(Chunker const *c, long *o) { return put(c->getAllChunks(), o); }
extern "C" long h_allsub(Chunker const *c, int id, long *o) { return put(c->getAllSubChunks(id), o); }
extern "C" void h_id(Chunker const *c, int id, long *o) { int s = c->getStripe(id); o[0] = s; o[1] = c->getChunk(id, s); o[2] = c->valid(id); }
extern "C" long h_valid(Chunker const *c, int id) { return c->valid(id); }
static void bx(Box const &b, double *o) { o[0] = b.getLon().getA().asRadians(); o[1] = b.getLon().getB().asRadians(); o[2] = b.getLat().getA().asRadians(); o[3] = b.getLat().getB().asRadians(); }
extern "C" void h_box(Box const *b, double *o) { bx(*b, o); }
extern "C" void h_bbox(Chunker const *c, int s, int k, double *o) { bx(c->getChunkBoundingBox(s, k), o); }
extern "C" void h_subbbox(Chunker const *c, int s, int k, double *o) { bx(c->getSubChunkBoundingBox(s, k), o); }
extern "C" long h_chunks(Chunker const *c, long *o) { Opq r(7); return put(c->getChunksIntersecting(r), o); }
extern "C" long h_subchunks(Chunker const *c, long *o) { Opq r(7); auto v = c->getSubChunksIntersecting(r); long n = 0;
  for (auto const &s : v) { o[n++] = s.chunkId; o[n++] = s.subChunkIds.size(); for (int i : s.subChunkIds) o[n++] = i; } return n; }
extern "C" void h_eq(int a, int b, int c, int d, long *o) { Chunker x(a, b), y(c, d); o[0] = x == y; o[1] = x != y; }
'''
H = PI / 2
SMALL = [(1, 1), (1, 3), (2, 2), (3, 1), (3, 2), (4, 3), (6, 2)]


def run(chk):
    prog = Program(build.build_ir(HARNESS, 'C19'))
    X = Ctx()
    X.prog = prog
    X.mm = std_minmax(prog)
    X.thorough = chk.thorough
    jobs = [('ctor', k) for k in range(7)] + [('equal',)]
    cfg = SMALL + [(7, 1), (10, 4), (17, 2), (85, 12)] + ([(180, 3), (340, 2), (200, 5)] if chk.thorough else [])
    jobs += [('cells', n, m) for n, m in cfg] + [('ids', n, m) for n, m in cfg]
    for n, m in SMALL:
        for f in ('chunks', 'subchunks'):
            jobs += [(f, n, m, k) for k in range(8)] + [('empty', n, m, f)]

    def one(c, it):
        globals()['do_' + it[0]](c, X, *it[1:])
    parallel(chk, jobs, one)
    for r, k in (('chunk-ids', 20), ('cells', 20), ('chunks-found', 100), ('subchunks-found', 100)):
        chk.need(r, k)


def paths(c, X, go, stubs, key, l, throws=False, maxpaths=20000, poly=True):
    cov = set()
    n = 0
    for R in explore(X.prog, go, stubs=dict(X.mm, **stubs), opts={'poly': poly, 'minmax': True, 'nsw': True, 'cov': cov, 'maxsteps': 40000000}, maxpaths=maxpaths):
        n += 1
        if R.alarm is not None or R.exc is not None and not throws:
            c.fail('no-fault', key + ':fault', (getattr(R.alarm, 'where', None) or [l])[0], '%s: %s; path: %s' % (key, R.alarm or R.exc, R.path(6)))
        else:
            c.ok('no-fault')
            yield R, (None if R.exc is not None else R.value)
    c.partitions += n
    src_of(X.prog, c, cov)
    if not n:
        raise build.AnalysisError('no path of ' + key)


# ---- construction ---------------------------------------------------------------
def do_ctor(c, X, k):
    l = loc_of(X.prog, r'Chunker::Chunker\(int, int\)')
    I = 2**31
    iv = lambda n, lo, hi: sym(n, lo, hi, isint=True)
    cases = [('negative stripes', iv('n', -I, 0), iv('m', -I, I - 1), True), ('negative sub-stripes', iv('n', -I, I - 1), iv('m', -I, 0), True),
             ('too many', iv('n', 1, I - 1), iv('m', 648001, I - 1), True), ('too many', iv('n', 648001, I - 1), iv('m', 1, I - 1), True),
             ('too many', iv('n', 806, I - 1), iv('m', 805, I - 1), True), ('at the limit', 648001, 1, True), ('at the limit', 1, 648001, True)]
    nm, n, m_, bad = cases[k]
    def go(m):
        m.call('h_make', [n, m_])
        return 'made'
    for R, v in paths(c, X, go, {}, 'constructor', l, throws=True, maxpaths=400):
        c.expect(v is None and 'runtime_error' in str(R.exc), 'constructor', 'ctor:%d' % k, l, lambda: '%s: Chunker(%s, %s) is accepted; %s' % (nm, n, m_, R.path(4)))


def do_equal(c, X):
    l = loc_of(X.prog, r'Chunker::operator==')
    for a, b in (((2, 2), (2, 2)), ((2, 2), (2, 1)), ((2, 2), (1, 2)), ((2, 1), (1, 2))):
        def go(m):
            o = outbuf(m, 2)
            m.call('h_eq', list(a + b) + [o])
            return [geti(m, o, i) for i in range(2)]
        for R, o in paths(c, X, go, {}, 'equality', l):
            c.expect(o == [int(a == b), int(a != b)], 'constructor', 'equal', l, lambda: 'Chunker%s == Chunker%s: %s' % (a, b, o))


# ---- layout ---------------------------------------------------------------------
def ints(m, fn, args, n):
    o = outbuf(m, n)
    k = m.call(fn, args + [o])
    return [s32(geti(m, o, i)) for i in range(k)]


def s32(x):
    x &= (1 << 64) - 1
    return x - (1 << 64) if x >> 63 else x


def segments(phi, h):
    """most segments of a band reaching latitude phi such that points a segment width apart are h apart"""
    if h > PI or phi > H - 4.85e-6:
        return 1
    x = (math.cos(h) - math.sin(phi) ** 2) / math.cos(phi) ** 2
    return 2 * PI / (math.acos(max(-1.0, min(1.0, x))))


def layout(m, n, k):
    """chunks and sub-chunks per stripe, from the public interface"""
    ch = m.call('h_make', [n, k])
    al = ints(m, 'h_all', [ch], 2 * n * n + 8)
    L = {'chunker': ch, 'all': al, 'n': n, 'm': k, 'nc': {}, 'nsc': {}, 'sub': {}}
    for i in al:
        o = outbuf(m, 3)
        m.call('h_id', [ch, i, o])
        s, t, v = [s32(geti(m, o, j)) for j in range(3)]
        L.setdefault('ids', {})[i] = (s, t, v)
    return L


def per_stripe(L):
    nc = {}
    for i, (s, t, v) in L['ids'].items():
        nc[s] = nc.get(s, 0) + 1
    return nc


def do_ids(c, X, n, k):
    l = loc_of(X.prog, r'Chunker::getAllChunks')
    lv = loc_of(X.prog, r'Chunker::valid')

    def go(m):
        L = layout(m, n, k)
        nc = per_stripe(L)
        bad = []
        probe = sorted({i + d for i in L['all'] for d in (-1, 0, 1)} | {-1, -n, -2 * n, 2 * n * n, 2 * n * n + 1, 2**31 - 1, -2**31}) if len(L['all']) < 300 else \
            sorted({L['all'][0] - 1, L['all'][-1] + 1} | {s * 2 * n + d for s in range(n + 1) for d in (-1, 0, nc.get(s, 0) - 1, nc.get(s, 0))} | {-2**31, 2**31 - 1})
        for i in probe:
            got = m.call('h_valid', [L['chunker'], i & 0xffffffff])
            if bool(got) != (i in L['ids']):
                bad.append((i, got))
        subs = {}
        for s in range(n):
            first = next((i for i in L['all'] if L['ids'][i][0] == s), None)
            if first is not None:
                subs[s] = ints(m, 'h_allsub', [L['chunker'], first], 4 * n * k * k + 64)
        return L, nc, bad, subs
    for R, v in paths(c, X, go, {}, 'ids:%d:%d' % (n, k), l):
        L, nc, bad, subs = v
        c.expect(len(set(L['all'])) == len(L['all']), 'chunk-ids', 'unique:%d' % n, l, lambda: 'Chunker(%d, %d): chunk identifiers are not unique' % (n, k))
        want = {s * 2 * n + t for s in nc for t in range(nc[s])}
        c.expect(set(L['all']) == want and sorted(nc) == list(range(n)), 'chunk-ids', 'dense:%d' % n, l, lambda: 'Chunker(%d, %d): chunk identifiers are not stripe * 2 * numStripes + chunk' % (n, k))
        c.expect(all(L['ids'][i] == (i // (2 * n), i % (2 * n), 1) for i in L['all']), 'chunk-ids', 'inverse:%d' % n, l, lambda: 'Chunker(%d, %d): getStripe and getChunk do not invert the identifier' % (n, k))
        c.expect(not bad, 'chunk-ids', 'valid:%d' % n, lv, lambda: 'Chunker(%d, %d): valid(%d) is %d' % ((n, k) + bad[0]))
        for s, ids in subs.items():
            c.expect(len(set(ids)) == len(ids) and len(ids) >= k, 'chunk-ids', 'sub:%d' % n, loc_of(X.prog, r'Chunker::getAllSubChunks'), lambda: 'Chunker(%d, %d), stripe %d: sub-chunk identifiers %s' % (n, k, s, ids[:20]))


def do_cells(c, X, n, k):
    """cells tile the sphere, are wide enough, and their boxes enclose them"""
    l = loc_of(X.prog, r'Chunker::getChunkBoundingBox')
    lsb = loc_of(X.prog, r'Chunker::getSubChunkBoundingBox')
    lc = loc_of(X.prog, r'Chunker::Chunker\(int, int\)')

    def go(m):
        L = layout(m, n, k)
        nc = per_stripe(L)
        boxes, sboxes, ns = {}, {}, {}
        for s in range(n):
            cs = range(nc[s]) if nc[s] < 12 else (0, 1, nc[s] // 2, nc[s] - 1)
            for t in cs:
                o = outbuf(m, 4)
                m.call('h_bbox', [L['chunker'], s, t, o])
                boxes[s, t] = lds(m, o, 4)
            ids = ints(m, 'h_allsub', [L['chunker'], s * 2 * n], 4 * n * k * k + 64)
            ns[s] = ids
        return L, nc, boxes, ns
    for R, v in paths(c, X, go, {}, 'cells:%d:%d' % (n, k), l):
        L, nc, boxes, ns = v
        for s in range(n):
            h = PI / n
            lo, hi = s * h - H, (s + 1) * h - H
            phi = max(abs(lo), abs(hi))
            w = segments(phi, h)
            c.expect(nc[s] == math.floor(w) or abs(w - round(w)) < 1e-7 and abs(nc[s] - w) < 1e-7, 'cells', 'width:%d:%d' % (n, k), lc,
                     lambda: 'Chunker(%d, %d): stripe %d has %d chunks; the width bound allows %s' % (n, k, s, nc[s], w))
        for (s, t), b in boxes.items():
            h = PI / n
            enclose(c, 'chunk', n, k, s, t, b, 2 * PI / nc[s], s * h - H, (s + 1) * h - H, l)
        # sub-chunks: counts by sub-stripe from the identifiers, boxes through the interface
        mx = max_per_substripe(ns, n, k)
        c.expect(mx is not None, 'cells', 'subids:%d:%d' % (n, k), lc, lambda: 'Chunker(%d, %d): sub-chunk identifiers are not rows of equal stride' % (n, k))
        if mx is None:
            continue
        stride, counts = mx

        def go2(m):
            ch = m.call('h_make', [n, k])
            out = {}
            for (s, y), q in counts.items():
                ss = s * k + y
                tot = q * nc[s]
                for t in {0, q - 1, tot // 2, tot - 1}:
                    o = outbuf(m, 4)
                    m.call('h_subbbox', [ch, ss, t, o])
                    out[ss, t, tot] = lds(m, o, 4)
            return out
        for R2, out in paths(c, X, go2, {}, 'cells:%d:%d' % (n, k), lsb):
            for (ss, t, tot), b in out.items():
                h = PI / (n * k)
                enclose(c, 'sub-chunk', n, k, ss, t, b, 2 * PI / tot, ss * h - H, (ss + 1) * h - H, lsb)
        for (s, y), q in counts.items():
            ss = s * k + y
            h = PI / (n * k)
            phi = max(abs(ss * h - H), abs((ss + 1) * h - H))
            w = segments(phi, h) / nc[s]
            e = math.floor(segments(phi, h) + 1e-9) // nc[s]
            c.expect(q == e or q == math.floor(segments(phi, h) - 1e-9) // nc[s], 'cells', 'subwidth:%d:%d' % (n, k), lc,
                     lambda: 'Chunker(%d, %d): sub-stripe %d has %d sub-chunks per chunk; the width bound allows %s' % (n, k, ss, q, w))


def max_per_substripe(ns, n, k):
    """(stride, {(stripe, row): sub-chunks per chunk}) if identifiers are row * stride + column with stride the longest row"""
    for stride in range(1, 4 * k * n + 40):
        counts = {}
        ok = True
        for s, ids in ns.items():
            for i in ids:
                y, x = divmod(i, stride)
                counts.setdefault((s, y), []).append(x)
            if any((s, y) not in counts for y in range(k)) or any(y >= k for (q, y) in counts if q == s):
                ok = False
                break
        if ok and all(sorted(v) == list(range(len(v))) for v in counts.values()) and max(len(v) for v in counts.values()) == stride:
            return stride, {a: len(b) for a, b in counts.items()}
    return None


def enclose(c, what, n, k, s, t, b, w, lo, hi, l):
    eps = 1e-13
    full = w > 2 * PI - 1e-9
    if full:
        lonok = b[0] <= eps and b[1] >= 2 * PI - eps
    else:
        # the dilated box starts a little before and ends a little after, modulo 2 pi
        before = (t * w - b[0]) % (2 * PI)
        after = (b[1] - (t + 1) * w) % (2 * PI)
        pole = hi > H - 1e-9 or lo < -H + 1e-9
        lonok = (0 < before < 1e-6 and 0 < after < 1e-6) or (b[0] <= eps and b[1] >= 2 * PI - eps and pole)
    latok = (b[2] < lo or b[2] == -H and lo < -H + 1e-9) and b[2] > lo - 1e-9 and (b[3] > hi or b[3] == H and hi > H - 1e-9) and b[3] < hi + 1e-9
    c.expect(lonok and latok, 'cells', 'box:%s:%d:%d' % (what, n, k), l, lambda: 'Chunker(%d, %d): box of %s %d of %sstripe %d is %s instead of slightly more than longitudes %s to %s, latitudes %s to %s' % (
        n, k, what, t, 'sub-' if what[0] == 's' else '', s, b, t * w, (t + 1) * w, lo, hi))


# ---- searching ------------------------------------------------------------------
class Grid:
    """the cells of Chunker(n, k), measured through its public interface"""

    def __init__(self, X, n, k):
        self.n, self.k = n, k
        m = Machine(X.prog, stubs=X.mm, opts={'maxsteps': 40000000})
        L = layout(m, n, k)
        self.nc = per_stripe(L)
        ns = {s: ints(m, 'h_allsub', [L['chunker'], s * 2 * n], 4 * n * k * k + 64) for s in range(n)}
        r = max_per_substripe(ns, n, k)
        if r is None:
            raise build.AnalysisError('sub-chunk identifiers of Chunker(%d, %d)' % (n, k))
        self.stride, self.counts = r
        self.cells = []
        for s in range(n):
            for t in range(self.nc[s]):
                self.cells.append(('c', s, t))
        for s in range(n):
            for y in range(k):
                for t in range(self.counts[s, y] * self.nc[s]):
                    self.cells.append(('s', s * k + y, t))
        self.table = {}
        for cell in self.cells:
            a, b, lo, hi = self.bounds(cell)
            self.table.setdefault(self.key(a, b, lo, hi), []).append(cell)

    def bounds(self, cell):
        kind, s, t = cell
        if kind == 'c':
            w, h = 2 * PI / self.nc[s], PI / self.n
        else:
            w, h = 2 * PI / (self.counts[s // self.k, s % self.k] * self.nc[s // self.k]), PI / (self.n * self.k)
        return t * w, (t + 1) * w, s * h - H, (s + 1) * h - H

    def key(self, a, b, lo, hi):
        if b - a > 2 * PI - 1e-6:
            return (0, 0, round(lo, 7), round(hi, 7))
        return (round((a + 1e-8) % (2 * PI), 7), round((b - a) % (2 * PI), 7), round(lo, 7), round(hi, 7))

    def find(self, b, wide=1e-6):
        """cells whose box this may be: a chunk and a sub-chunk may coincide"""
        out = []
        for cell in self.cells:
            a, e, lo, hi = self.bounds(cell)
            if not (abs(b[2] - lo) < wide and abs(b[3] - hi) < wide):
                continue
            full = b[0] <= 1e-12 and b[1] >= 2 * PI - 1e-12
            if full and (e - a > 2 * PI - 1e-6 or hi > H - 1e-9 or lo < -H + 1e-9):
                out.append((cell, e - a > 2 * PI - 1e-6))
            elif not full and min((b[0] - a) % (2 * PI), (a - b[0]) % (2 * PI)) < wide and min((b[1] - e) % (2 * PI), (e - b[1]) % (2 * PI)) < wide:
                out.append((cell, True))
        return out


def answers(G, pat):
    """relation of the region to each cell: a consistent assignment"""
    A = {}
    idx = {c: i for i, c in enumerate(G.cells)}
    for cell in G.cells:
        kind, s, t = cell
        if kind == 'c':
            A[cell] = [0, DISJOINT, CONTAINS, 0, DISJOINT, WITHIN, 0][(s * 2 + t * 3 + pat) % 7] if pat < 6 else 0 if pat == 6 else CONTAINS
        else:
            ch = ('c', s // G.k, t // G.counts[s // G.k, s % G.k])
            up = A[ch]
            if up == DISJOINT:
                A[cell] = DISJOINT
            elif up == CONTAINS:
                A[cell] = CONTAINS
            else:
                A[cell] = [0, DISJOINT, CONTAINS, DISJOINT, WITHIN][(s + 2 * t + pat) % 5] if pat < 6 else 0
            # a cell with the same box as another has the same relation
            if G.k == 1 and G.counts[s, 0] == 1:
                A[cell] = up
    return A


def spots(bounds, quick):
    """unknown positions: strictly inside each cell, and each boundary"""
    out = []
    b = sorted(set(bounds))
    g = F(1, 10**6)
    for i in range(len(b) - 1):
        lo, hi = F(b[i]), F(b[i + 1])
        if hi - lo > 4 * g:
            out.append((lo + g, hi - g))
    return out


def lon_cuts(G, s0, s1):
    cuts = [0.0, 2 * PI]
    for cell in G.cells:
        kind, s, t = cell
        st = s if kind == 'c' else s // G.k
        if s0 <= st <= s1:
            a, b, _, _ = G.bounds(cell)
            cuts += [a, b]
    out = []
    for x in sorted(cuts):
        if not out or x - out[-1] > 1e-9:
            out.append(x)
    return out


def search_cases(G, part, thorough):
    """bounding boxes: (lonA spot, lonB spot, latA spot, latB spot, wraps)"""
    h = PI / (G.n * G.k)
    lat = spots([i * h - H for i in range(G.n * G.k + 1)], True)
    cases = []
    for i in range(len(lat)):
        for j in range(i, len(lat)):
            s0, s1 = i // G.k, j // G.k
            lon = spots(lon_cuts(G, s0, s1), True)
            pairs = [(p, q, w) for p in range(len(lon)) for q in range(len(lon)) for w in ((0, 1) if p == q else (0,) if p < q else (1,))]
            limit = 40 if not thorough else 400
            step = max(1, len(pairs) * (len(lat) * (len(lat) + 1) // 2) // (8 * limit))
            for z, (p, q, w) in enumerate(pairs):
                if (z + 3 * i + 5 * j) % step == 0:
                    cases.append((lon[p], lon[q], lat[i], lat[j], w))
    return [x for z, x in enumerate(cases) if z % 8 == part]


def meets(spotA, spotB, wraps, a, b):
    """does the open cell (a, b) meet longitudes from spotA to spotB (spots do not straddle cell boundaries)"""
    lo, hi = float(spotA[0] + spotA[1]) / 2, float(spotB[0] + spotB[1]) / 2
    if not wraps:
        return a < hi and b > lo
    return a < hi or b > lo


def do_chunks(c, X, n, k, part):
    search(c, X, n, k, part, 'chunks')


def do_subchunks(c, X, n, k, part):
    search(c, X, n, k, part, 'subchunks')


def search(c, X, n, k, part, fn):
    G = Grid(X, n, k)
    l = loc_of(X.prog, r'Chunker::get%sIntersecting' % ('Chunks' if fn == 'chunks' else 'SubChunks'))
    cases = search_cases(G, part, X.thorough)
    for z, case in enumerate(cases):
        pat = (z + part) % 8
        A = answers(G, pat)
        lonA, lonB, latA, latB, wraps = case
        log = []

        def go(m):
            del log[:]
            a = sym('lonA', *lonA)
            b = sym('lonB', *lonB)
            if lonA == lonB:
                m.learn(sub(a, b), {1} if wraps else {-1, 0})
            s = sym('latA', *latA)
            t = sym('latB', *latB)
            if latA == latB:
                m.learn(sub(s, t), {-1, 0})
            m.box = [a, b, s, t]
            ch = m.call('h_make', [n, k])
            o = outbuf(m, 4000)
            q = m.call('h_' + fn, [ch, o])
            return [s32(geti(m, o, i)) for i in range(q)]

        def v_box(m, a):
            for i in range(4):
                m.store(Ptr(a[1].obj, 8 * i + a[1].off), m.box[i], ['d'], 8)

        def v_relate(m, a):
            o = outbuf(m, 4)
            m.call('h_box', [a[2], o])
            b = lds(m, o, 4)
            if a[1] != 1 or not all(isinstance(x, float) for x in b):
                log.append(('bad', None, None))
                return DISJOINT
            f = G.find(b)
            if not f:
                log.append(('bad', None, b))
                return DISJOINT
            # coinciding cells are told apart by who asks: prefer a chunk unless it has been asked about already
            exact = [x for x, e in f if e] or [x for x, e in f]
            ans = None
            for x in exact:
                ans = A[x] if ans is None else ans
            log.append(('rel', exact, ans))
            return ans

        stubs = {'v_box': v_box, 'v_relate': v_relate, 'v_dtor': lambda m, a: None}
        stubs.update(dilation(X, log))
        key = '%s:%d:%d' % (fn, n, k)
        for R, got in paths(c, X, go, stubs, key, l):
            judge(c, G, A, case, got, log, fn, key, l, R)


def dilation(X, log):
    """dilating a box with unknown bounds by a tiny amount leaves it in its cells"""
    def f(m, a):
        b = lds(m, Ptr(a[0].obj, a[0].off + 8), 4)
        if all(isinstance(x, float) for x in b):
            return NotImplemented
        r = float(P(a[1]).cval()) if isnum(a[1]) and P(a[1]).is_const() else a[1]
        if not (isinstance(r, float) and 0 <= r < 1e-7):
            log.append(('bad', None, 'dilated by %s' % r))
        return a[0]
    return stub_map(X.prog, {r'sphgeom::Box::dilateBy\(lsst::sphgeom::Angle\)': f}, required=False)


def judge(c, G, A, case, got, log, fn, key, l, R):
    lonA, lonB, latA, latB, wraps = case
    desc = lambda: 'Chunker(%d, %d), bounding box longitudes %.4f to %.4f%s, latitudes %.4f to %.4f' % (
        G.n, G.k, float(lonA[0]), float(lonB[0]), ' (wrapping)' if wraps else '', float(latA[0]), float(latB[0]))
    bad = [x for x in log if x[0] == 'bad']
    c.expect(not bad, 'cells-asked', key, l, lambda: '%s: the region is related to a box %s that is no cell' % (desc(), bad[0][2]))
    la, lb = float(latA[0] + latA[1]) / 2, float(latB[0] + latB[1]) / 2

    def inside(cell):
        a, b, lo, hi = G.bounds(cell)
        return lo < lb and hi > la and meets(lonA, lonB, wraps, a, b)
    if fn == 'chunks':
        want = {s * 2 * G.n + t for (kd, s, t) in G.cells if kd == 'c' and inside((kd, s, t)) and not A[kd, s, t] & DISJOINT}
        allowed = {s * 2 * G.n + t for (kd, s, t) in G.cells if kd == 'c' and not A[kd, s, t] & DISJOINT}
        c.expect(want <= set(got), 'chunks-found', key + ':missing', l, lambda: '%s: chunks %s are missing from %s' % (desc(), sorted(want - set(got)), got))
        c.expect(set(got) <= allowed, 'chunks-found', key + ':extra', l, lambda: '%s: chunks %s are disjoint from the region' % (desc(), sorted(set(got) - allowed)))
        c.expect(len(set(got)) == len(got), 'chunks-found', key + ':twice', l, lambda: '%s: chunks returned twice in %s' % (desc(), got))
        return
    res = {}
    i = 0
    dup = False
    empty = False
    while i + 1 < len(got):
        ids = got[i + 2:i + 2 + got[i + 1]]
        dup |= got[i] in res or len(set(ids)) != len(ids)
        empty |= not ids
        res[got[i]] = set(ids)
        i += 2 + len(ids)
    want, allowed = {}, {}
    for cell in G.cells:
        kd, s, t = cell
        if kd != 's':
            continue
        st, y = divmod(s, G.k)
        q = G.counts[st, y]
        ch = t // q
        cid, sid = st * 2 * G.n + ch, y * G.stride + t % q
        if A['c', st, ch] == CONTAINS:
            if inside(('c', st, ch)):
                want.setdefault(cid, set()).add(sid)
            allowed.setdefault(cid, set()).add(sid)
        elif not A[cell] & DISJOINT:
            if inside(cell):
                want.setdefault(cid, set()).add(sid)
            allowed.setdefault(cid, set()).add(sid)
    miss = [(x, sorted(v - res.get(x, set()))) for x, v in sorted(want.items()) if v - res.get(x, set())]
    extra = [(x, sorted(v - allowed.get(x, set()))) for x, v in sorted(res.items()) if v - allowed.get(x, set())]
    c.expect(not miss, 'subchunks-found', key + ':missing', l, lambda: '%s: sub-chunks %s of chunk %d are missing; relations %s' % (desc(), miss[0][1], miss[0][0], A['c', miss[0][0] // (2 * G.n), miss[0][0] % (2 * G.n)]))
    c.expect(not extra, 'subchunks-found', key + ':extra', l, lambda: '%s: sub-chunks %s of chunk %d do not intersect the region' % (desc(), extra[0][1], extra[0][0]))
    c.expect(not dup and not empty, 'subchunks-found', key + ':twice', l, lambda: '%s: repeated or empty entries in %s' % (desc(), got[:40]))


def do_empty(c, X, n, k, fn):
    """a region without a bounding box meets nothing, and looking for it does no harm"""
    l = loc_of(X.prog, r'Chunker::get%sIntersecting' % ('Chunks' if fn == 'chunks' else 'SubChunks'))
    for lon in ([NAN, NAN], [1.0, 2.0]):
        for lat in ([1.0, 0.0], [NAN, NAN]):
            def go(m):
                ch = m.call('h_make', [n, k])
                o = outbuf(m, 4000)
                q = m.call('h_' + fn, [ch, o])
                return [s32(geti(m, o, i)) for i in range(q)]

            def v_box(m, a):
                for i, x in enumerate(lon + lat):
                    m.store(Ptr(a[1].obj, 8 * i + a[1].off), x, ['d'], 8)
            for R, got in paths(c, X, go, {'v_box': v_box, 'v_relate': lambda m, a: DISJOINT | WITHIN, 'v_dtor': lambda m, a: None}, 'empty:%s' % fn, l):
                c.expect(got == [], 'empty-region', 'empty:%s' % fn, l, lambda: 'an empty region has %s %s' % (fn, got))
