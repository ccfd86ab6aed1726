"""C08: encode/decode round trip of every region kind, in both codec paths."""
from common import *
from framework import parallel

EXPLANATION = (
    'Abstract interpretation of the linked LLVM IR of encode() and of every decode() entry point, for the default build and '
    'for -DNO_OPTIMIZED_PATHS (byte by byte codec): a region of every kind is built from unknown doubles (plus NaN and '
    'infinities where a member may hold them), encoded, decoded and compared with the original - dynamic type, every byte of '
    'the object state, operator== and the bytes of a second encode(). The domain tracks which byte of which unknown double '
    'each buffer cell holds, so a byte or field written or read in the wrong place is a mismatch for all values at once.')
ASSUMPTIONS = ['IEEE-754 binary64 doubles, little-endian target (the IR is x86-64)',
               'polygons of 3 and 4 vertices by construction and up to 8 by decoding; compound nesting depth up to 2']

HARNESS = r'''
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/Circle.h"
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/Ellipse.h"
#include "lsst/sphgeom/CompoundRegion.h"
#include "lsst/sphgeom/codec.h"
#include <new>
using namespace lsst::sphgeom;
typedef std::vector<std::uint8_t> Bytes;
struct Out { Region *orig; Bytes *enc; Region *dec; Region *dec2; Bytes *enc2; long eq, eq2, kind, kind2; };
static UnitVector3d U(double const *v) { return UnitVector3d::fromNormalized(v[0], v[1], v[2]); }
static Region *mk(long kind, double const *v) {
  switch (kind) {
    case 0: return new Box(NormalizedAngleInterval::fromRadians(v[0], v[1]), AngleInterval::fromRadians(v[2], v[3]));
    case 1: return new Circle(U(v), v[3]);
    case 2: return new ConvexPolygon(U(v), U(v + 3), U(v + 6));
    case 3: return new ConvexPolygon(U(v), U(v + 3), U(v + 6), U(v + 9));
    case 4: return new Ellipse(U(v), Angle(v[3]), Angle(v[4]), Angle(v[5]));
    case 5: return new Circle(U(v), Angle(v[3]));
    case 6: return new Box();
    case 7: return new Circle();
    case 8: return new Ellipse();
    case 9: return new Box(Box::full());
    case 10: return new Circle(Circle::full());
    case 11: return new Ellipse(Ellipse::full());
  }
  return nullptr;
}
static long kindOf(Region const *r) {
  if (dynamic_cast<Box const *>(r)) return 1;
  if (dynamic_cast<Circle const *>(r)) return 2;
  if (dynamic_cast<ConvexPolygon const *>(r)) return 3;
  if (dynamic_cast<Ellipse const *>(r)) return 4;
  if (dynamic_cast<UnionRegion const *>(r)) return 5;
  if (dynamic_cast<IntersectionRegion const *>(r)) return 6;
  return 0;
}
static long equal(Region const *a, Region const *b) {
  if (auto x = dynamic_cast<Box const *>(a)) return *x == *dynamic_cast<Box const *>(b);
  if (auto x = dynamic_cast<Circle const *>(a)) return *x == *dynamic_cast<Circle const *>(b);
  if (auto x = dynamic_cast<ConvexPolygon const *>(a)) return x->getVertices() == dynamic_cast<ConvexPolygon const *>(b)->getVertices();
  if (auto x = dynamic_cast<Ellipse const *>(a)) return *x == *dynamic_cast<Ellipse const *>(b);
  if (auto x = dynamic_cast<CompoundRegion const *>(a)) { auto y = dynamic_cast<CompoundRegion const *>(b);
    return equal(&x->getOperand(0), &y->getOperand(0)) && equal(&x->getOperand(1), &y->getOperand(1)); }
  return -1;
}
static Region *direct(Region const *r, Bytes const &s) {
  switch (kindOf(r)) {
    case 1: return Box::decode(s).release();
    case 2: return Circle::decode(s).release();
    case 3: return ConvexPolygon::decode(s).release();
    case 4: return Ellipse::decode(s).release();
    case 5: return UnionRegion::decode(s).release();
    case 6: return IntersectionRegion::decode(s).release();
  }
  return nullptr;
}
static void trip(Region *r, Out *o) {
  o->orig = r; o->kind = kindOf(r);
  o->enc = new Bytes(r->encode());
  o->dec = Region::decode(*o->enc).release();
  o->kind2 = kindOf(o->dec);
  o->eq = o->kind == o->kind2 ? equal(r, o->dec) : 0;
  o->dec2 = direct(r, *o->enc);
  o->eq2 = equal(r, o->dec2);
  o->enc2 = new Bytes(o->dec->encode());
}
extern "C" long h_size() { return sizeof(Out); }
extern "C" void h_trip(long kind, double const *v, Out *o) { trip(mk(kind, v), o); }
extern "C" void h_trip2(long op, long k1, double const *v1, long k2, double const *v2, Out *o) {
  Region *a = mk(k1, v1), *b = mk(k2, v2);
  Region *c; if (op == 0) c = new UnionRegion(*a, *b); else c = new IntersectionRegion(*a, *b);
  delete a; delete b; trip(c, o);
  o->dec2 = CompoundRegion::decode(*o->enc).release(); o->eq2 = o->eq2 && equal(c, o->dec2) && kindOf(o->dec2) == o->kind; }
extern "C" void h_trip3(long op, long op2, long left, long k1, double const *v1, long k2, double const *v2, Out *o) {
  Region *a = mk(k1, v1), *b = mk(k2, v2);
  Region *c; if (op2 == 0) c = new UnionRegion(*a, *b); else c = new IntersectionRegion(*a, *b);
  Region *d; if (op == 0) d = left ? new UnionRegion(*c, *a) : new UnionRegion(*a, *c); else d = left ? new IntersectionRegion(*c, *a) : new IntersectionRegion(*a, *c);
  delete a; delete b; delete c; trip(d, o); }
extern "C" void h_trippoly(std::uint8_t const *b, long n, Out *o) { trip(Region::decode(b, n).release(), o); }
extern "C" void h_u64(std::uint64_t x, Out *o) { o->enc = new Bytes; encodeU64(x, *o->enc); o->kind = decodeU64(o->enc->data()); o->kind2 = o->enc->size(); }
extern "C" double h_f64(double x, Out *o) { o->enc = new Bytes; encodeDouble(x, *o->enc); o->kind2 = o->enc->size(); return decodeDouble(o->enc->data()); }
extern "C" void h_codes(std::uint8_t *c) { c[0] = Box::TYPE_CODE; c[1] = Circle::TYPE_CODE; c[2] = ConvexPolygon::TYPE_CODE;
  c[3] = Ellipse::TYPE_CODE; c[4] = UnionRegion::TYPE_CODE; c[5] = IntersectionRegion::TYPE_CODE; }
'''
NAMES = {0: 'Box', 1: 'Circle', 2: 'ConvexPolygon', 3: 'ConvexPolygon', 4: 'Ellipse', 5: 'Circle', 6: 'Box', 7: 'Circle', 8: 'Ellipse',
         9: 'Box', 10: 'Circle', 11: 'Ellipse'}
PI = 3.141592653589793
F = Fraction


def v3(n):
    return [sym('%s.%s' % (n, c), F(-1), F(1)) for c in 'xyz']


def inputs(kind, tag=''):
    if kind == 0:
        hi = F(2 * PI) * F(999, 1000)
        lon = [(sym(tag + 'lonA', F(0), hi, rank=F(x)), sym(tag + 'lonB', F(0), hi, rank=F(y))) for x, y in ((1, 2), (2, 1), (1, 1))]
        lon.append((NAN, NAN))
        lon.append((0.0, 2 * PI))
        h = F(PI / 2)
        lat = [(sym(tag + 'latA', -h, h, rank=F(x)), sym(tag + 'latB', -h, h, rank=F(y))) for x, y in ((1, 2), (1, 1))]
        lat += [(-PI / 2, PI / 2), (NAN, NAN)]
        return [list(x) + list(y) for x in lon for y in lat]
    if kind in (1, 5):
        r = [v3(tag + 'c') + [x] for x in (sym(tag + 'l2', F(1, 10**6), F(3)), 0.0, -1.0, 4.0, 17.0, NAN, INF, -INF)]
        r += [[0.0, -0.0, NAN, 1.0], [INF, 1e-310, 5e-324, 0.5]]
        return r
    if kind == 2:
        return [v3(tag + 'a') + v3(tag + 'b') + v3(tag + 'c'), [0.0, -0.0, 1.0, 1e-310, NAN, INF, -INF, 0.1, -0.2]]
    if kind == 3:
        return [v3(tag + 'a') + v3(tag + 'b') + v3(tag + 'c') + v3(tag + 'd')]
    if kind == 4:
        a1, a2 = sym(tag + 'alpha', F(1, 2), F(1)), sym(tag + 'beta', F(1, 10), F(1, 3))
        b1, b2 = sym(tag + 'alpha', F(2), F(5, 2)), sym(tag + 'beta', F(26, 10), F(3))
        o = sym(tag + 'orient', F(0), F(1))
        return [[1.0, 0.0, 0.0] + list(t) for t in ((a1, a2, 0.0),) + ((a1, a2, o), (a2, a1, o), (b1, b2, o), (b2, b1, o), (PI / 2, PI / 2, o), (-1.0, 1.0, o), (4.0, 4.0, o))]
    return [[0.0]]


def getvec(m, p):
    b, e = m.load(p, ['p'], 8), m.load(Ptr(p.obj, p.off + 8), ['p'], 8)
    n = m.ibin('sub', e.off, b.off, 64) if b.obj is not None else 0
    return [m.load(Ptr(b.obj, b.off + i), ['i', 8], 1) for i in range(n)]


def bits(m, v):
    return d2b(v) if isinstance(v, float) else m.double_bits(v) if isinstance(v, Poly) and not m.isintp(v) else v


from absint import d2b


def flat(m, p, size):
    """bytes of an object (vptr and other pointers by identity)"""
    out = []
    i = 0
    while i < size:
        c = p.obj.cells.get(p.off + i)
        if c is not None and c[0] == 8:
            out.append((i, bits(m, c[1])))
            i += 8
        else:
            b = m.byteat(p.obj, p.off + i)
            out.append((i, None if b is None else b))
            i += 1
    return out


BUF = 40960


def run(chk):
    progs = [('default', Program(build.build_ir(HARNESS, 'C08'))),
             ('portable', Program(build.build_ir(HARNESS, 'C08p', defs=['NO_OPTIMIZED_PATHS'])))]
    items = []
    for pi in (0, 1):
        for k in range(12):
            for v in range(len(inputs(k))):
                items.append(('one', pi, k, v))
        ks = [0, 1, 2, 4, 7] if not chk.thorough else [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]
        for op in (0, 1):
            for k1 in ks:
                for k2 in ks:
                    items.append(('two', pi, op, k1, k2))
        for op in (0, 1):
            for op2 in (0, 1):
                for left in (0, 1):
                    for k1, k2 in (((1, 2), (0, 1)) if not chk.thorough else ((1, 2), (0, 1), (2, 0), (4, 1), (6, 8), (3, 5))):
                        items.append(('three', pi, op, op2, left, k1, k2))
        for nv in range(3, 9 if not chk.thorough else 17):
            items.append(('poly', pi, nv))
        items.append(('prim', pi))
    items.append(('codes',))

    def normalize(m, a):
        # over-approximated: some unit vector
        k = m.__dict__['nrm'] = m.__dict__.get('nrm', 0) + 1
        for i in range(3):
            m.store(Ptr(a[0].obj, a[0].off + 8 * i), sym('n%d.%d' % (k, i), F(-1), F(1)), ['d'], 8)
        return sym('norm%d' % k, F(1, 1000), F(1000))
    stubs = {'_ZN4lsst7sphgeom8Vector3d9normalizeEv': normalize}

    def readout(m, o):
        r = {}
        for i, n in enumerate(('orig', 'enc', 'dec', 'dec2', 'enc2')):
            r[n] = m.load(Ptr(o.obj, 8 * i), ['p'], 8)
        for i, n in enumerate(('eq', 'eq2', 'kind', 'kind2')):
            r[n] = sgn64(m.load(Ptr(o.obj, 40 + 8 * i), ['i', 64], 8))
        return r

    def trip(c, pname, prog, entry, args, key, what, nancircle=False):
        opts = {'bytes': True, 'consts': (Fraction(0),), 'cov': set(), 'poly': False}

        def go(m):
            o = Ptr(Obj('out', 128, 'heap'), 0)
            m.call(entry, [a(m) if callable(a) else a for a in args] + [o])
            r = readout(m, o)
            r['b1'], r['b2'] = getvec(m, r['enc']), getvec(m, r['enc2'])
            r['diff'] = []
            for d in ('dec', 'dec2'):
                a, b = r['orig'], r[d]
                if a.obj.size != b.obj.size:
                    r['diff'].append('object size')
                    continue
                if r['kind'] in (1, 2, 4):
                    for (i, x), (_, y) in zip(flat(m, a, a.obj.size), flat(m, b, b.obj.size)):
                        if x is not None and not (x == y or (isinstance(x, Ptr) and isinstance(y, Ptr) and x == y)):
                            r['diff'].append('%s: object bytes at +%d: %s became %s' % (d, i, show(x), show(y)))
            return r

        where = loc_of(prog, r'::%s::encode\(' % what)
        n = 0
        for R in explore(prog, go, stubs=stubs, opts=opts, maxpaths=4000):
            n += 1
            c.partitions += 1
            if R.exc or R.alarm:
                c.fail('round-trip', key + '|raise', where, '%s build: encoding then decoding ends in %s; %s' % (
                    pname, R.exc or R.alarm, R.path(8)))
                continue
            r = R.value
            c.expect(r['kind'] == r['kind2'] and r['kind'] > 0, 'dynamic-type', key + '|type', where,
                     'decode produced region kind %s for kind %s' % (r['kind2'], r['kind']))
            isn = nancircle
            c.expect(isn or (r['eq'] == 1 and r['eq2'] == 1), 'equal', key + '|eq', where,
                     '%s build: decode(encode(r)) != r; %s' % (pname, R.path(8)))
            c.expect(not r['diff'], 'same-state', key + '|state', where, lambda: '%s build: %s' % (pname, r['diff'][:4]))
            c.expect(len(r['b1']) == len(r['b2']) and all(x == y for x, y in zip(r['b1'], r['b2'])), 'stable-bytes', key + '|bytes',
                     where, lambda: '%s build: encoding the decoded region gives different bytes' % pname)
            if n == 1 and len(c.samples) < 3:
                c.samples.append('%s build, %s(%s): %d bytes, first payload byte %s' % (
                    pname, what, key, len(r['b1']), show(r['b1'][1]) if len(r['b1']) > 1 else '-'))
        c.expect(n > 0, 'reachable', key + '|reach', where, 'no abstract partition reaches the end')
        src_of(prog, c, opts['cov'])
        return n

    def dbuf(vals):
        def f(m):
            o = Obj('in', 8 * max(1, len(vals)), 'heap')
            for i, v in enumerate(vals):
                o.cells[8 * i] = (8, v)
            return Ptr(o, 0)
        return f

    def item(c, it):
        if it[0] == 'codes':
            pname, prog = progs[0]
            m = Machine(prog)
            o = Ptr(Obj('out', 8, 'heap'), 0)
            m.call('h_codes', [o])
            t = [m.load(Ptr(o.obj, i), ['i', 8], 1) for i in range(6)]
            for i in range(6):
                for j in range(i):
                    c.expect(t[i] != t[j], 'type-codes-distinct', 'codes%d,%d' % (i, j), 'TYPE_CODE', 'two region kinds share type code %s' % t[i])
            return
        pname, prog = progs[it[1]]
        if it[0] == 'one':
            _, _, k, v = it
            vals = inputs(k)[v]
            # operator== of members that are NaN is false by IEEE rules
            nan = k in (1, 2, 3, 5) and any(isinstance(x, float) and x != x for x in vals[:3 if k in (1, 5) else 12])
            trip(c, pname, prog, 'h_trip', [k, dbuf(vals)], '%s|%d|%d' % (NAMES[k], k, v), NAMES[k], nan)
            # the bytes themselves: same in both builds
            if it[1] == 0:
                both = []
                for pn, pr in progs:
                    def go(m):
                        o = Ptr(Obj('out', 128, 'heap'), 0)
                        m.call('h_trip', [k, dbuf(vals)(m), o])
                        return getvec(m, readout(m, o)['enc'])
                    both.append([R.value for R in explore(pr, go, stubs=stubs, opts={'bytes': True, 'consts': (Fraction(0),)}) if not R.alarm and not R.exc])
                # rendered, so that partitions may come in another order
                ra, rb = sorted({repr([show(x) for x in y]) for y in both[0]}), sorted({repr([show(x) for x in y]) for y in both[1]})
                c.expect(ra == rb, 'builds-agree', 'agree|%d|%d' % (k, v), loc_of(prog, r'::%s::encode\(' % NAMES[k]),
                         'the optimised and the portable build encode the same %s differently' % NAMES[k])
        elif it[0] == 'two':
            _, _, op, k1, k2 = it
            v1, v2 = inputs(k1, 'p')[0], inputs(k2, 'q')[0]
            w = ('UnionRegion', 'IntersectionRegion')[op]
            trip(c, pname, prog, 'h_trip2', [op, k1, dbuf(v1), k2, dbuf(v2)], '%s|%d|%d' % (w, k1, k2), w)
        elif it[0] == 'three':
            _, _, op, op2, left, k1, k2 = it
            v1, v2 = inputs(k1, 'p')[0], inputs(k2, 'q')[0]
            w = ('UnionRegion', 'IntersectionRegion')[op]
            trip(c, pname, prog, 'h_trip3', [op, op2, left, k1, dbuf(v1), k2, dbuf(v2)], '%s|%d|%d|%d|%d' % (w, op2, left, k1, k2), w)
        elif it[0] == 'poly':
            nv = it[2]

            def mkbuf(m):
                mm = Machine(prog)
                code = Ptr(Obj('c', 8, 'heap'), 0)
                mm.call('h_codes', [code])
                tc = mm.load(Ptr(code.obj, 2), ['i', 8], 1)
                o = Obj('in', 1 + 24 * nv, 'heap')
                o.cells[0] = (1, tc)
                for i in range(nv * 3):
                    o.cells[1 + 8 * i] = (8, sym('v%d.%s' % (i // 3, 'xyz'[i % 3]), F(-1), F(1)))
                return Ptr(o, 0)
            trip(c, pname, prog, 'h_trippoly', [mkbuf, 1 + 24 * nv], 'ConvexPolygon|n%d' % nv, 'ConvexPolygon')
        elif it[0] == 'prim':
            x = P(0)
            for i in range(8):
                x = x.add(sym('u%d' % i, 0, 255, isint=True).scale(1 << (8 * i)))
            for val in (x, 0, 1, 0x0102030405060708, 2**64 - 1, 2**53 + 1):
                m = Machine(prog, opts={'bytes': True})
                o = Ptr(Obj('out', 128, 'heap'), 0)
                m.call('h_u64', [val, o])
                n = m.load(Ptr(o.obj, 64), ['i', 64], 8)
                got = m.load(Ptr(o.obj, 56), ['i', 64], 8)
                c.expect(n == 8 and got == val, 'u64', 'u64', 'encodeU64/decodeU64 (include/lsst/sphgeom/codec.h)',
                         '%s build: decodeU64(encodeU64(%s)) is %s in %s bytes' % (pname, show(val), show(got), n))
                bb = getvec(m, m.load(Ptr(o.obj, 8), ['p'], 8))
                if isinstance(val, int):
                    c.expect(bb == list(val.to_bytes(8, 'little')), 'little-endian', 'u64le', 'encodeU64 (include/lsst/sphgeom/codec.h)',
                             '%s build: bytes of %#x are %s' % (pname, val, bb))
            y = sym('d')
            for val in (y, 0.0, -0.0, 1.5, -2.25, NAN, INF, -INF, 5e-324, 0.1):
                m = Machine(prog, opts={'bytes': True})
                o = Ptr(Obj('out', 128, 'heap'), 0)
                got = m.call('h_f64', [val, o])
                n = m.load(Ptr(o.obj, 64), ['i', 64], 8)
                c.expect(n == 8 and bits(m, got) == bits(m, val), 'f64', 'f64', 'encodeDouble/decodeDouble (include/lsst/sphgeom/codec.h)',
                         '%s build: decodeDouble(encodeDouble(%s)) is %s in %s bytes' % (pname, show(val), show(got), n))
                bb = getvec(m, m.load(Ptr(o.obj, 8), ['p'], 8))
                ref = [m.bytesym((val, i, 8)) for i in range(8)]
                c.expect(all(p == q for p, q in zip(bb, ref)) and len(bb) == 8, 'little-endian', 'f64le',
                         'encodeDouble (include/lsst/sphgeom/codec.h)', '%s build: bytes of %s are %s' % (pname, show(val), [show(z) for z in bb]))

    parallel(chk, items, item)
    chk.need('round-trip' if 'round-trip' in chk.obl else 'equal', 100)
    chk.need('little-endian', 20)


def show(x):
    return x.show(2) if hasattr(x, 'show') else repr(x)


def sgn64(x):
    return x - 2**64 if isinstance(x, int) and x >> 63 else x
