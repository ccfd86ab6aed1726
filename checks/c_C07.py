"""C07: RangeSet mutators are all-or-nothing under allocation failure, and
correct when an operand is the set itself."""
from rangeset_model import *
from framework import parallel
import absint

EXPLANATION = (
    'Abstract interpretation of the linked LLVM IR of every RangeSet mutator over order types of the endpoints, with one '
    'allocation site at a time made to fail: for each mutator, each abstract operand and each k, the k-th allocation the '
    'mutator performs throws, and the set (and the argument) must then be exactly what they were. Aliased calls (the set '
    'passed as its own argument) are compared with the set algebra.')
ASSUMPTIONS = ['allocation failure is reported by operator new throwing std::bad_alloc',
               'operands hold at most 3 ranges each (2 for the argument)']

HARNESS = COMMON + '''
extern "C" void v_arm(int);
extern "C" void h_mut(u64 const *a, long na, u64 const *b, long nb, u64 f, u64 l, long op, u64 *o) {
  RangeSet x = mk(a, na); RangeSet y = mk(b, nb); o[255] = 0;
  try { v_arm(1);
    switch (op) {
      case 0: x.insert(f, l); break;
      case 1: x.erase(f, l); break;
      case 2: x &= y; break;
      case 3: x |= y; break;
      case 4: x -= y; break;
      case 5: x ^= y; break;
      case 6: x.insert(f); break;
      case 7: x.erase(f); break;
      case 8: x.clear(); break;
      case 9: x.fill(); break;
      case 10: x.complement(); break;
      case 11: x.simplify(3); break;
      case 12: x.scale(4); break;
      case 13: x.swap(y); break;
      case 14: x.insert(std::make_tuple(f, l)); break;
      case 15: x.erase(std::make_tuple(f, l)); break;
    }
    v_arm(0);
  } catch (std::bad_alloc const &) { v_arm(0); o[255] = 1; }
  dump(x, o); if (op != 13) dump(y, o + 64); else dump(mk(b, nb), o + 64); }
extern "C" void h_pure(u64 const *a, long na, u64 const *b, long nb, long op, u64 *o) {
  RangeSet x = mk(a, na); RangeSet y = mk(b, nb); o[255] = 0;
  try { v_arm(1);
    switch (op) {
      case 0: x.intersection(y); break; case 1: x.join(y); break; case 2: x.difference(y); break; case 3: x.symmetricDifference(y); break;
      case 4: x.complemented(); break; case 5: x.simplified(3); break; case 6: x.scaled(4); break;
    }
    v_arm(0);
  } catch (std::bad_alloc const &) { v_arm(0); o[255] = 1; }
  dump(x, o); dump(y, o + 64); }
extern "C" void h_self(u64 const *a, long na, long op, u64 *o) {
  RangeSet x = mk(a, na); RangeSet t; RangeSet *r = &x; o[255] = 0;
  switch (op) {
    case 0: x &= x; break;
    case 1: x |= x; break;
    case 2: x -= x; break;
    case 3: x ^= x; break;
    case 4: t = x.intersection(x); r = &t; break;
    case 5: t = x.join(x); r = &t; break;
    case 6: t = x.difference(x); r = &t; break;
    case 7: t = x.symmetricDifference(x); r = &t; break;
    case 8: { RangeSet &z = x; x = z; break; }
    case 9: x.swap(x); break;
    case 10: { if (!x.empty()) x.insert(*x.begin()); break; }
    case 11: { o[254] = x.contains(x) && x.isWithin(x) && (x == x) && !(x != x) && (x.intersects(x) == !x.empty()) && (x.isDisjointFrom(x) == x.empty()); break; }
  }
  dump(*r, o); }
'''
MUT = ['insert', 'erase', 'operator&=', 'operator|=', 'operator-=', 'operator^=', 'insert', 'erase', 'clear', 'fill', 'complement',
       'simplify', 'scale', 'swap', 'insert', 'erase']
PURE = ['intersection', 'join', 'difference', 'symmetricDifference', 'complemented', 'simplified', 'scaled']
SELF = ['operator&=', 'operator|=', 'operator-=', 'operator^=', 'intersection', 'join', 'difference', 'symmetricDifference',
        'operator=', 'swap', 'insert', 'contains']


def run(chk):
    prog = Program(build.build_ir(HARNESS, 'C07', passes='inline'))
    OPTS = {'rankdist': True}
    items = []
    KB = 4 if chk.thorough else 3
    for ka in range((6 if chk.thorough else 4) + 1):
        for s in (0, 1):
            for kb in range(KB + 1):
                if ka > 4 and kb > 2:
                    continue
                for a, b in merges(ka, kb):
                    for t in (0, 1):
                        items.append(('bin', s, a, t, b))
            for kb in (0, 1, 2):
                for a, b in merges(ka, kb):
                    ps = [(b[0], b[1]), (b[1], b[0])] if kb == 2 else [(b[0], b[0]), (0, b[0]), (b[0], 0)] if kb else [(0, 0)]
                    for f, l in ps:
                        items.append(('un', s, a, f, l))
    for ka in range(7):
        for s in (0, 1):
            items.append(('self', s, tuple(range(1, ka + 1))))

    def L(op):
        import re
        return loc_of(prog, r'RangeSet::%s\(' % re.escape(op))

    def inject(c, entry, args, rule, key, check_ok, before):
        """run with the k-th armed allocation failing, k = 0, 1, ..."""
        k = 0
        while True:
            hit = []

            def go(m):
                st = {'on': 0, 'n': 0, 'fired': False}

                def hook(mm, size):
                    if st['on']:
                        st['n'] += 1
                        if st['n'] == k + 1:
                            st['fired'] = True
                            absint.throw_std(mm, '_ZTISt9bad_alloc')
                m.alloc_hook = hook
                m.stubs = {'v_arm': lambda mm, a: st.__setitem__('on', a[0])}
                o = outbuf(m, 256)
                m.call(entry, [x(m) if callable(x) else x for x in args] + [o])
                return o, st
            cov = set()
            res = list(explore(prog, go, opts=dict(OPTS, cov=cov)))
            c.partitions += len(res)
            src_of(prog, c, cov)
            fired = False
            for r in res:
                desc = lambda: '%s with allocation #%d failing' % (key, k + 1)
                if r.alarm is not None or r.exc is not None:
                    c.fail('no-fault', key + ':fault', (getattr(r.alarm, 'where', None) or [key])[0], '%s: %s' % (desc(), r.alarm or r.exc))
                    fired = fired or False
                    continue
                o, st = r.value
                if st['fired']:
                    fired = True
                    caught = geti(r.m, o, 255)
                    c.expect(caught == 1, 'failure-reported', key, L(key), lambda: desc() + ': the failure was swallowed')
                    before(c, r, o, key, desc)
                elif k == 0:
                    check_ok(c, r, o, key)
            if not fired:
                return k
            k += 1
            if k > 40:
                raise absint.Budget('allocations')

    def one(c, it):
        if it[0] == 'bin':
            _, s, a, t, b = it
            n = max(a + b, default=0)
            va, ka = toggles(s, a, n)
            vb, kb = toggles(t, b, n)
            pts = [Fraction(i) for i in range(n + 1)]
            A, B = cells_of(ka, pts), cells_of(kb, pts)

            def before(c, r, o, key, desc):
                d = lambda: '%s; set %s, argument %s' % (desc(), va, vb)
                expect_set(c, r.m, o, 0, A, pts, n, 'unchanged-on-failure', key, L(key), d)
                expect_set(c, r.m, o, 64, B, pts, n, 'unchanged-on-failure', key + ':argument', L(key), d)
            W = {2: A & B, 3: A | B, 4: A - B, 5: A ^ B}

            for op in (2, 3, 4, 5):
                def okc(c, r, o, key):
                    expect_set(c, r.m, o, 0, W[op], pts, n, 'result', key, L(key), lambda: key)
                inject(c, 'h_mut', [lambda m: mkarr(m, va), len(va), lambda m: mkarr(m, vb), len(vb), 0, 0, op], 'x', MUT[op], okc, before)
            if len(a) + len(b) <= 4:
                for op in range(4):
                    inject(c, 'h_pure', [lambda m: mkarr(m, va), len(va), lambda m: mkarr(m, vb), len(vb), op], 'x', PURE[op],
                           lambda *z: None, before)
                def sw(c, r, o, key):
                    expect_set(c, r.m, o, 0, B, pts, n, 'result', key, L(key), lambda: key)
                inject(c, 'h_mut', [lambda m: mkarr(m, va), len(va), lambda m: mkarr(m, vb), len(vb), 0, 0, 13], 'x', 'swap', sw, before)
        elif it[0] == 'un':
            _, s, a, f, l = it
            n = max(a + tuple(x for x in (f, l) if x), default=0)
            va, ka = toggles(s, a, n)
            pts = [Fraction(i) for i in range(n + 1)]
            A = cells_of(ka, pts)
            vf, vl = [atomv(x, n) if x else 0 for x in (f, l)]
            R = frozenset(p for p in pts if (f == l) or ((f <= p and (p < l or l == 0)) if (f < l or l == 0) else (p >= f or p < l)))
            W = {0: A | R, 1: A - R, 14: A | R, 15: A - R, 8: frozenset(), 9: frozenset(pts), 10: frozenset(pts) - A}

            def before(c, r, o, key, desc):
                d = lambda: '%s(%s, %s); set %s' % (desc(), vf, vl, va)
                expect_set(c, r.m, o, 0, A, pts, n, 'unchanged-on-failure', key, L(key), d)
            ops = [0, 1, 14, 15] + ([8, 9, 10, 11, 12] if not f and not l else [])
            for op in ops:
                def okc(c, r, o, key):
                    if op in W:
                        expect_set(c, r.m, o, 0, W[op], pts, n, 'result', key, L(key), lambda: '%s(%s, %s) of %s' % (key, vf, vl, va))
                nal = inject(c, 'h_mut', [lambda m: mkarr(m, va), len(va), lambda m: mkarr(m, []), 0, vf, vl, op], 'x', MUT[op], okc, before)
                if op in (8, 9, 10):
                    c.ok('allocation-free' if nal == 0 else 'allocating')
            if f == l and len(a) <= 3:
                pts2 = pts
                for op in (6, 7):
                    if f:
                        inject(c, 'h_mut', [lambda m: mkarr(m, va), len(va), lambda m: mkarr(m, []), 0, vf, 0, op], 'x', MUT[op],
                               lambda *z: None, before)
            if not f and not l:
                for op in (4, 5, 6):
                    inject(c, 'h_pure', [lambda m: mkarr(m, va), len(va), lambda m: mkarr(m, []), 0, op], 'x', PURE[op],
                           lambda *z: None, before)
        else:
            _, s, a = it
            n = len(a)
            va, ka = toggles(s, a, n)
            pts = [Fraction(i) for i in range(n + 1)]
            A = cells_of(ka, pts)
            Z = frozenset()
            W = [A, A, Z, Z, A, A, Z, Z, A, A, A, A]
            for op in range(12):
                def go(m):
                    o = outbuf(m, 256)
                    m.store(Ptr(o.obj, 254 * 8), 1, ['i', 64], 8)
                    m.call('h_self', [mkarr(m, va), len(va), op, o])
                    return o
                cov = set()
                for r in explore(prog, go, opts=dict(OPTS, cov=cov)):
                    c.partitions += 1
                    key = SELF[op] + ':self'
                    if r.alarm is not None or r.exc is not None:
                        c.fail('no-fault', key, (getattr(r.alarm, 'where', None) or [key])[0], '%s of %s: %s' % (key, va, r.alarm or r.exc))
                        continue
                    expect_set(c, r.m, r.value, 0, W[op], pts, n, 'aliasing', key, L(SELF[op]), lambda: '%s on %s' % (key, va))
                    c.expect(geti(r.m, r.value, 254) == 1, 'aliasing', key + ':predicates', L(SELF[op]), str(va))
                src_of(prog, c, cov)

    parallel(chk, items, one)
    chk.need('unchanged-on-failure', 5000)
    chk.need('aliasing', 100)
