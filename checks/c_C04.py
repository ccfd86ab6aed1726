"""C04: union and intersection regions are the point-set operations of their
operands, whatever the operands are."""
from common import *
from framework import parallel

EXPLANATION = (
    'Abstract interpretation of the linked IR of UnionRegion and IntersectionRegion over operands that are opaque Region '
    'implementations: each virtual member of an operand is a hook that may answer anything. All answers are enumerated '
    '(2 per membership test, 8 per relate call), so the combination rules are decided for every pair of operands. Bounds are '
    'compared with the operands\' bounds combined by the bound\'s own expandTo/clipTo, for opaque circles (uninterpreted '
    'combination) and for boxes of every order type.')
ASSUMPTIONS = ['operands answer for themselves correctly (their own classes are the subject of other properties)',
               'nesting is covered by induction on the operand hook; one extra level is analysed explicitly']

HARNESS = OPAQUE_REGION + r'''
static CompoundRegion *mk(long op, long mode) {
  if (mode == 0) { Opq a(10), b(20); if (op == 0) return new UnionRegion(a, b); return new IntersectionRegion(a, b); }
  std::array<std::unique_ptr<Region>, 2> x{std::unique_ptr<Region>(new Opq(10)), std::unique_ptr<Region>(new Opq(20))};
  if (op == 0) return new UnionRegion(std::move(x)); return new IntersectionRegion(std::move(x));
}
extern "C" long h_make(long op, long mode, CompoundRegion **o) { *o = mk(op, mode);
  return static_cast<Opq const &>((*o)->getOperand(0)).id * 100 + static_cast<Opq const &>((*o)->getOperand(1)).id; }
extern "C" void h_delete(CompoundRegion *c) { delete c; }
extern "C" long h_clone(CompoundRegion *c, long how, CompoundRegion **o) {
  if (how == 0) *o = static_cast<CompoundRegion *>(c->clone().release());
  else if (how == 1) { if (auto u = dynamic_cast<UnionRegion *>(c)) *o = new UnionRegion(*u); else *o = new IntersectionRegion(*static_cast<IntersectionRegion *>(c)); }
  else { if (auto u = dynamic_cast<UnionRegion *>(c)) *o = new UnionRegion(std::move(*u)); else *o = new IntersectionRegion(std::move(*static_cast<IntersectionRegion *>(c))); }
  CompoundRegion *d = *o;
  long k = dynamic_cast<UnionRegion *>(d) ? 0 : dynamic_cast<IntersectionRegion *>(d) ? 1 : 9;
  return k * 10000 + static_cast<Opq const &>(d->getOperand(0)).id * 100 + static_cast<Opq const &>(d->getOperand(1)).id; }
extern "C" long h_contains(CompoundRegion *c, double const *v) { return c->contains(U(v)); }
extern "C" long h_rel(CompoundRegion *c, long kind, void const **arg) {
  static double const v[9] = {1,0,0, 0,1,0, 0,0,1};
  Region const *q = c;
  switch (kind) {
    case 0: { Opq r(30); *arg = &r; return q->relate(r).to_ulong(); }
    case 1: { Box r; *arg = &r; return q->relate(r).to_ulong(); }
    case 2: { Circle r; *arg = &r; return q->relate(r).to_ulong(); }
    case 3: { ConvexPolygon r(U(v), U(v + 3), U(v + 6)); *arg = &r; return q->relate(r).to_ulong(); }
    case 4: { Ellipse r; *arg = &r; return q->relate(r).to_ulong(); }
    case 5: { Box r; *arg = &r; return q->relate(static_cast<Region const &>(r)).to_ulong(); }
  }
  return 99; }
extern "C" long h_nest(long op, long op2, long side) {
  Opq a(10), b(20), d(40), r(30);
  std::unique_ptr<Region> in; if (op2 == 0) in.reset(new UnionRegion(a, b)); else in.reset(new IntersectionRegion(a, b));
  if (op == 0) { return side ? UnionRegion(*in, d).relate(r).to_ulong() : UnionRegion(d, *in).relate(r).to_ulong(); }
  return side ? IntersectionRegion(*in, d).relate(r).to_ulong() : IntersectionRegion(d, *in).relate(r).to_ulong(); }
extern "C" long h_nestc(long op, long op2, long side, double const *v) {
  Opq a(10), b(20), d(40);
  std::unique_ptr<Region> in; if (op2 == 0) in.reset(new UnionRegion(a, b)); else in.reset(new IntersectionRegion(a, b));
  if (op == 0) { return side ? UnionRegion(*in, d).contains(U(v)) : UnionRegion(d, *in).contains(U(v)); }
  return side ? IntersectionRegion(*in, d).contains(U(v)) : IntersectionRegion(d, *in).contains(U(v)); }
static void put(Box const &b, double *o) { o[0] = b.getLon().getA().asRadians(); o[1] = b.getLon().getB().asRadians(); o[2] = b.getLat().getA().asRadians(); o[3] = b.getLat().getB().asRadians(); }
static void put(Box3d const &b, double *o) { o[0] = b.x().getA(); o[1] = b.x().getB(); o[2] = b.y().getA(); o[3] = b.y().getB(); o[4] = b.z().getA(); o[5] = b.z().getB(); }
static void put(Circle const &b, double *o) { o[0] = b.getCenter().x(); o[1] = b.getCenter().y(); o[2] = b.getCenter().z(); o[3] = b.getSquaredChordLength(); o[4] = b.getOpeningAngle().asRadians(); }
extern "C" void h_box(long op, double *o) { Region *c = mk(op, 0); put(c->getBoundingBox(), o);
  Opq a(10), b(20); if (op == 0) { put(a.getBoundingBox().expandTo(b.getBoundingBox()), o + 8); put(b.getBoundingBox().expandTo(a.getBoundingBox()), o + 16); }
  else { put(a.getBoundingBox().clipTo(b.getBoundingBox()), o + 8); put(b.getBoundingBox().clipTo(a.getBoundingBox()), o + 16); } }
extern "C" void h_box3d(long op, double *o) { Region *c = mk(op, 0); put(c->getBoundingBox3d(), o);
  Opq a(10), b(20); if (op == 0) { put(a.getBoundingBox3d().expandTo(b.getBoundingBox3d()), o + 8); put(b.getBoundingBox3d().expandTo(a.getBoundingBox3d()), o + 16); }
  else { put(a.getBoundingBox3d().clipTo(b.getBoundingBox3d()), o + 8); put(b.getBoundingBox3d().clipTo(a.getBoundingBox3d()), o + 16); } }
extern "C" void h_circle(long op, double *o) { Region *c = mk(op, 0); put(c->getBoundingCircle(), o);
  Opq a(10), b(20); if (op == 0) { put(a.getBoundingCircle().expandTo(b.getBoundingCircle()), o + 8); put(b.getBoundingCircle().expandTo(a.getBoundingCircle()), o + 16); }
  else { put(a.getBoundingCircle().clipTo(b.getBoundingCircle()), o + 8); put(b.getBoundingCircle().clipTo(a.getBoundingCircle()), o + 16); } }
extern "C" void h_ops(long *o) { Circle a(UnitVector3d::X(), 1.0), b(UnitVector3d::Y(), 1.0); a.expandTo(b); a.clipTo(b); }
'''
OPN = ['UnionRegion', 'IntersectionRegion']
KINDS = ['Region', 'Box', 'Circle', 'ConvexPolygon', 'Ellipse', 'Box (as Region)']


def rule(op, r1, r2):
    if op == 0:
        return (r1 & r2 & 1) | (r1 & r2 & 4) | ((r1 | r2) & 2)
    return (r1 & r2 & 2) | ((r1 | r2) & 1) | ((r1 | r2) & 4)


def same_val(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return P(a) == P(b) if not (isinstance(a, float) or isinstance(b, float)) else False


def run(chk):
    prog = Program(build.build_ir(HARNESS, 'C04'))
    NOP = {'v_clone': lambda m, a: None, 'v_dtor': lambda m, a: None}
    locs = {(o, f): loc_of(prog, r'%s::%s\(' % (OPN[o], f)) for o in (0, 1)
            for f in ('contains', 'relate', 'getBoundingBox', 'getBoundingBox3d', 'getBoundingCircle', 'clone')}
    ctor = loc_of(prog, r'CompoundRegion::CompoundRegion\(')

    def results(c, fn, stubs, key, loc, opts=None):
        cov = set()
        n = 0
        for r in explore(prog, fn, stubs=dict(NOP, **stubs), opts=dict(opts or {}, cov=cov)):
            n += 1
            if r.alarm is not None or r.exc is not None:
                c.fail('no-fault', key + ':fault', (getattr(r.alarm, 'where', None) or [loc])[0], '%s: %s' % (key, r.alarm or r.exc))
            else:
                yield r
        c.partitions += n
        src_of(prog, c, cov)

    def mk(m, op, mode):
        o = outbuf(m, 2)
        ids = m.call('h_make', [op, mode, o])
        return m.load(o, ['p'], 8), ids

    VEC = [sym('v.' + x, Fraction(-1), Fraction(1)) for x in 'xyz']

    def vecbuf(m):
        p = outbuf(m, 3)
        for i, x in enumerate(VEC):
            m.store(Ptr(p.obj, 8 * i), x, ['d'], 8)
        return p

    for op in (0, 1):
        name = OPN[op]
        for mode in (0, 1):
            # operands kept in order, owned, copied once each, released once each
            log = []

            def go(m):
                log.clear()
                live = {}
                m.stubs = dict(m.stubs, v_clone=lambda mm, a: log.append(('clone', a[0])), v_dtor=lambda mm, a: log.append(('dtor', a[0])))
                p, ids = mk(m, op, mode)
                l1 = list(log)
                log.clear()
                m.call('h_delete', [p])
                leaks = [o for o in m.heap if o.alive and o.kind == 'heap']
                return ids, l1, list(log), len(leaks)
            for r in results(chk, go, {}, name + ':construct', ctor):
                ids, l1, l2, leaks = r.value
                chk.expect(ids == 10 * 100 + 20, 'operands-in-order', '%s:ctor%d' % (name, mode), ctor, 'operands are %s' % ids)
                if mode == 0:
                    chk.expect(sorted(x for k, x in l1 if k == 'clone') == [10, 20], 'operands-copied', name + ':copied', ctor, repr(l1))
                chk.expect(sorted(x for k, x in l2) == [10, 20], 'operands-released', '%s:released%d' % (name, mode), ctor, repr(l2))
                chk.expect(leaks == 0, 'operands-released', '%s:leak%d' % (name, mode), ctor, '%d allocations leaked' % leaks)
            for how in (0, 1, 2):
                def go(m):
                    log.clear()
                    p, ids = mk(m, op, mode)
                    m.stubs = dict(m.stubs, v_clone=lambda mm, a: log.append(a[0]))
                    o = outbuf(m, 1)
                    k = m.call('h_clone', [p, how, o])
                    q = m.load(o, ['p'], 8)
                    m.call('h_delete', [p])
                    if q.obj is not None:
                        m.call('h_delete', [q])
                    return k, list(log), len([x for x in m.heap if x.alive and x.kind == 'heap'])
                for r in results(chk, go, {}, name + ':clone', locs[op, 'clone']):
                    k, lg, leaks = r.value
                    chk.expect(k == op * 10000 + 1020, 'copy-same-kind-and-operands', '%s:clone%d' % (name, how), locs[op, 'clone'], 'got %s' % k)
                    chk.expect(sorted(lg) == ([10, 20] if how < 2 else []) and leaks == 0, 'copy-is-deep', '%s:deep%d' % (name, how),
                               locs[op, 'clone'], 'cloned %s, %d leaked' % (lg, leaks))
            # membership
            for b1 in (0, 1):
                for b2 in (0, 1):
                    seen = []

                    def vc(m, a):
                        p = a[1]
                        seen.append([m.load(Ptr(p.obj, p.off + 8 * i), ['d'], 8) for i in range(3)])
                        return {10: b1, 20: b2}[a[0]]

                    def go(m):
                        seen.clear()
                        p, _ = mk(m, op, mode)
                        return m.call('h_contains', [p, vecbuf(m)])
                    for r in results(chk, go, {'v_contains': vc}, name + ':contains', locs[op, 'contains']):
                        exp = (b1 or b2) if op == 0 else (b1 and b2)
                        chk.expect(r.value == exp, 'membership', '%s:contains%d%d' % (name, b1, b2), locs[op, 'contains'],
                                   'operands answer %d, %d; the compound answers %s' % (b1, b2, r.value))
                        chk.expect(all(all(same_val(x, y) for x, y in zip(v, VEC)) for v in seen), 'membership-same-point', name + ':point',
                                   locs[op, 'contains'], 'an operand was asked about another point')
            # relate
            for kind in range(6):
                for r1 in range(8):
                    for r2 in range(8):
                        args = []

                        def vr(m, a):
                            args.append((a[0], a[1], a[2]))
                            return {10: r1, 20: r2}[a[0]]

                        def go(m):
                            args.clear()
                            p, _ = mk(m, op, mode)
                            o = outbuf(m, 1)
                            v = m.call('h_rel', [p, kind, o])
                            return v, m.load(o, ['p'], 8), list(args)
                        for r in results(chk, go, {'v_relate': vr}, '%s:relate%d' % (name, kind), locs[op, 'relate']):
                            v, q, lg = r.value
                            # through Region&, a concrete argument is dispatched on its type and the answer inverted twice
                            exp = rule(op, r1, r2)
                            chk.expect(v == exp, 'relate-combination', '%s:relate:%s' % (name, KINDS[kind]), locs[op, 'relate'],
                                       lambda: 'relate(%s): operands answer %s and %s; expected %s, got %s' % (KINDS[kind], bits(r1), bits(r2), bits(exp), bits(v)))
                            chk.expect(all(x[2].obj is q.obj for x in lg), 'relate-same-argument', '%s:rarg:%s' % (name, KINDS[kind]), locs[op, 'relate'],
                                       'an operand was related to something else')
        # the rule table itself is sound and complete over sets: every boolean assignment of cells
        # nesting
        for op2 in (0, 1):
            for side in (0, 1):
                for r1 in range(8):
                    for r2 in range(8):
                        for r3 in range(8):
                            def vr(m, a):
                                return {10: r1, 20: r2, 40: r3}[a[0]]
                            for r in results(chk, lambda m: m.call('h_nest', [op, op2, side]), {'v_relate': vr}, name + ':nest', locs[op, 'relate']):
                                i = rule(op2, r1, r2)
                                exp = rule(op, i, r3) if side else rule(op, r3, i)
                                chk.expect(r.value == exp, 'relate-nested', '%s:nest%d%d' % (name, op2, side), locs[op, 'relate'],
                                           lambda: 'nested relate: operands answer %s' % [bits(x) for x in (r1, r2, r3)])
                for t in range(8):
                    b1, b2, b3 = t & 1, t >> 1 & 1, t >> 2 & 1

                    def vc(m, a):
                        return {10: b1, 20: b2, 40: b3}[a[0]]
                    for r in results(chk, lambda m: m.call('h_nestc', [op, op2, side, vecbuf(m)]), {'v_contains': vc}, name + ':nestc', locs[op, 'contains']):
                        i = (b1 or b2) if op2 == 0 else (b1 and b2)
                        exp = (i or b3) if op == 0 else (i and b3)
                        chk.expect(r.value == exp, 'membership-nested', '%s:nestc%d%d' % (name, op2, side), locs[op, 'contains'], 'operands answer %d %d %d' % (b1, b2, b3))
    # the combination table, against sets: a bit may be claimed only if every set
    # consistent with the operand bits has it (all subsets of a 4-element universe)
    table_sound(chk)
    bounds(chk, prog, results, locs)


def bits(r):
    if not isinstance(r, int):
        return repr(r)
    return '|'.join(n for n, b in (('DISJOINT', 1), ('CONTAINS', 2), ('WITHIN', 4)) if r & b) or 'INTERSECTS'


def rel(a, b):
    return (1 if not a & b else 0) | (2 if a & b == b else 0) | (4 if a & b == a else 0)


def table_sound(chk):
    for op in (0, 1):
        for r1 in range(8):
            for r2 in range(8):
                bad = None
                for a in range(8):
                    for b in range(8):
                        for x in range(8):
                            if r1 & ~rel(a, x) or r2 & ~rel(b, x):
                                continue
                            if rule(op, r1, r2) & ~rel(a | b if op == 0 else a & b, x):
                                bad = (a, b, x)
                chk.expect(bad is None, 'rule-table-sound', 'table', 'rule table', repr((op, r1, r2, bad)))


def bounds(chk, prog, results, locs):
    PI = 3.141592653589793

    def uf(tag, comm):
        def st(m, a):
            t, x = a[0], a[1]
            f1 = [m.load(Ptr(t.obj, t.off + 8 * i), ['d'], 8) for i in range(1, 6)]
            f2 = [m.load(Ptr(x.obj, x.off + 8 * i), ['d'], 8) for i in range(1, 6)]
            for i in range(5):
                m.store(Ptr(t.obj, t.off + 8 * (i + 1)), m.fn('%s%d' % (tag, i), *(f1 + f2)), ['d'], 8)
            return t
        return st
    stubs = stub_map(prog, {r'Circle::expandTo\(lsst::sphgeom::Circle const': uf('expand', 0), r'Circle::clipTo\(lsst::sphgeom::Circle const': uf('clip', 0),
                            r'Circle::openingAngleFor\(': lambda m, a: m.fn('oa', a[0])})

    def vcirc(m, a):
        for i, n in enumerate(('x', 'y', 'z', 'l2')):
            m.store(Ptr(a[1].obj, a[1].off + 8 * i), sym('c%d.%s' % (a[0], n), Fraction(1, 4), Fraction(1)), ['d'], 8)
    for op in (0, 1):
        def go(m):
            o = outbuf(m, 24)
            m.call('h_circle', [op, o])
            return [[getd(m, o, 8 * k + i) for i in range(5)] for k in range(3)]
        key = OPN[op] + ':circle'
        for r in results(chk, go, dict(stubs, v_circle=vcirc), key, locs[op, 'getBoundingCircle']):
            got, e1, e2 = r.value
            chk.expect(same_list(got, e1) or same_list(got, e2), 'bounding-circle-combined', key, locs[op, 'getBoundingCircle'],
                       'the bounding circle is not the operands\' circles combined by %s' % ('expandTo' if op == 0 else 'clipTo'))
    # boxes: all order types of the four longitudes times latitude orders
    items = []
    lons = list(order_types(4, nan=False))
    lats = [t for t in order_types(4, nan=False) if t[0] <= t[1] and t[2] <= t[3]]
    if not chk.thorough:
        lats = lats[::3]
    for lo in lons:
        for la in lats:
            items.append((lo, la))
    E = (NAN, NAN)

    def boxes(lo, la):
        h = Fraction(PI / 2)
        tau = Fraction(2 * PI) * Fraction(999, 1000)
        L = [sym('lon%d' % i, Fraction(0), tau, rank=Fraction(x)) for i, x in enumerate(lo)]
        T = [sym('lat%d' % i, -h, h, rank=Fraction(x)) for i, x in enumerate(la)]
        yield (L[0], L[1], T[0], T[1]), (L[2], L[3], T[2], T[3])
        if lo == lons[0] or la == lats[0]:
            yield (NAN, NAN, NAN, NAN), (L[2], L[3], T[2], T[3])
            yield (L[0], L[1], T[0], T[1]), (NAN, NAN, NAN, NAN)
            yield (0.0, 2 * PI, -PI / 2, PI / 2), (L[2], L[3], T[2], T[3])

    def one(c, it):
        for b1, b2 in boxes(*it):
            def vb(m, a):
                for i, x in enumerate({10: b1, 20: b2}[a[0]]):
                    m.store(Ptr(a[1].obj, a[1].off + 8 * i), x, ['d'], 8)

            def vb3(m, a):
                x = {10: b1, 20: b2}[a[0]]
                y = (x[2], x[3], x[2], x[3], x[2], x[3])
                for i, v in enumerate(y):
                    m.store(Ptr(a[1].obj, a[1].off + 8 * i), v, ['d'], 8)
            for op in (0, 1):
                for entry, n, f in (('h_box', 4, 'getBoundingBox'), ('h_box3d', 6, 'getBoundingBox3d')):
                    def go(m):
                        o = outbuf(m, 24)
                        m.call(entry, [op, o])
                        return [[getd(m, o, 8 * k + i) for i in range(n)] for k in range(3)]
                    key = OPN[op] + ':' + f
                    for r in results(c, go, {'v_box': vb, 'v_box3d': vb3}, key, locs[op, f], {'rankdist': True, 'poly': True}):
                        got, e1, e2 = r.value
                        c.expect(same_list(got, e1) or same_list(got, e2), 'bounding-box-combined', key, locs[op, f],
                                 lambda: 'operand bounds %s, %s: got %s, combining gives %s' % (b1, b2, got, e1))
    parallel(chk, items, one)


def same_list(a, b):
    return all(same_val(x, y) for x, y in zip(a, b))
