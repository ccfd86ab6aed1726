"""C06: RangeSet is the boolean algebra of subsets of [0, 2^64)."""
from rangeset_model import *
from framework import parallel

EXPLANATION = (
    'Abstract interpretation of the linked LLVM IR of every public RangeSet operation over the finite domain of order types '
    '(interleavings, ties included) of the range endpoints of the operands, 0 and 2^64 included as special end points. '
    'Endpoints are only compared, and moved by one, by the code, so each order type stands for every concrete choice of '
    'endpoints. Results are compared with the set algebra over the cells the endpoints delimit; results must be canonical.')
ASSUMPTIONS = ['operands hold at most 2 ranges each in the quick tier (3 in the thorough tier, one side at most 2); the '
               'algorithms recurse on range lists, longer operands are covered only by that recursion',
               'scale factors and simplification levels are those listed in the evidence']

HARNESS = COMMON + '''
extern "C" void h_bin(u64 const *a, long na, u64 const *b, long nb, long op, u64 *o) {
  RangeSet x = mk(a, na); RangeSet const y = mk(b, nb); RangeSet const x0(x); RangeSet *r = &x; RangeSet t;
  switch (op) {
    case 0: t = x.intersection(y); r = &t; break;
    case 1: t = x.join(y); r = &t; break;
    case 2: t = x.difference(y); r = &t; break;
    case 3: t = x.symmetricDifference(y); r = &t; break;
    case 4: t = x & y; r = &t; break;
    case 5: t = x | y; r = &t; break;
    case 6: t = x - y; r = &t; break;
    case 7: t = x ^ y; r = &t; break;
    case 8: x &= y; break;
    case 9: x |= y; break;
    case 10: x -= y; break;
    case 11: x ^= y; break;
  }
  dump(*r, o); dump(y, o + 64); if (r == &t) dump(x, o + 128); else dump(x0, o + 128); }
extern "C" void h_rel(u64 const *a, long na, u64 const *b, long nb, long *o) {
  RangeSet const x = mk(a, na), y = mk(b, nb);
  o[0] = x.contains(y); o[1] = x.isDisjointFrom(y); o[2] = x.intersects(y); o[3] = x.isWithin(y); o[4] = (x == y); o[5] = (x != y); }
extern "C" void h_un(u64 const *a, long na, u64 f, u64 l, long op, u64 *o) {
  RangeSet x = mk(a, na); RangeSet const x0(x); RangeSet t; RangeSet *r = &x;
  switch (op) {
    case 0: x.insert(f, l); break;
    case 1: x.erase(f, l); break;
    case 2: x.insert(std::make_tuple(f, l)); break;
    case 3: x.erase(std::make_tuple(f, l)); break;
    case 4: x.complement(); break;
    case 5: t = x.complemented(); r = &t; break;
    case 6: t = ~x; r = &t; break;
    case 7: x.clear(); break;
    case 8: x.fill(); break;
    case 9: { RangeSet y(f, l); x.swap(y); dump(x, o); dump(y, o + 64); return; }
    case 10: { t = RangeSet(x.begin(), x.end()); r = &t; break; }
    case 11: t = RangeSet(f, l); r = &t; break;
    case 12: t = RangeSet(std::make_tuple(f, l)); r = &t; break;
    case 13: { std::pair<u64, u64> p(f, l); t = RangeSet({p, std::pair<u64, u64>(0, 1)}); r = &t; break; }
    case 14: { t = x; t = std::move(x); r = &t; break; }
  }
  dump(*r, o); if (r == &t && op != 14) dump(x, o + 64); else dump(x0, o + 64); }
extern "C" void h_one(u64 const *a, long na, u64 u, long op, u64 *o) {
  RangeSet x = mk(a, na);
  switch (op) {
    case 0: x.insert(u); break; case 1: x.erase(u); break; case 2: x = RangeSet(u); break;
    case 3: x = RangeSet({u, (u64)0}); break; }
  dump(x, o); }
extern "C" void h_oneq(u64 const *a, long na, u64 u, long *o) {
  RangeSet const x = mk(a, na);
  o[0] = x.contains(u); o[1] = x.isDisjointFrom(u); o[2] = x.intersects(u); o[3] = x.isWithin(u); }
extern "C" void h_rng(u64 const *a, long na, u64 f, u64 l, long *o) {
  RangeSet const x = mk(a, na);
  o[0] = x.contains(f, l); o[1] = x.isDisjointFrom(f, l); o[2] = x.intersects(f, l); o[3] = x.isWithin(f, l); }
extern "C" void h_iter(u64 const *a, long na, long *o) {
  RangeSet const x = mk(a, na); long n = (long)x.size();
  auto b = x.begin(), e = x.end(); o[0] = e - b; o[1] = (b + n == e); o[2] = (e - n == b); o[3] = (n + b == e);
  auto i = b; i += n; o[4] = (i == e); i -= n; o[5] = (i == b); o[6] = (b < e) == (n > 0); o[7] = (b <= e) && (e >= b);
  o[8] = 1; o[9] = 1; for (long k = 0; k < n; ++k) { auto j = b; for (long z = 0; z < k; ++z) ++j; o[8] = o[8] && b[k] == *j && *(b + k) == *j && *(e - (n - k)) == *j; 
    auto q = e; for (long z = k; z < n; ++z) --q; o[9] = o[9] && q == j; auto w = j; o[9] = o[9] && (w++ == j) && (w-- == j + 1) && w == j; }
  o[10] = (x.cbegin() == b) && (x.cend() == e); o[11] = (x.endc() - x.beginc()); }
extern "C" void h_scale(u64 const *a, long na, u64 k, u64 *o) { RangeSet x = mk(a, na); RangeSet const y(x); dump(y.scaled(k), o + 64); x.scale(k); dump(x, o); }
extern "C" void h_simp(u64 const *a, long na, unsigned k, u64 *o) { RangeSet x = mk(a, na); RangeSet const y(x); dump(y.simplified(k), o + 64); x.simplify(k); dump(x, o); }
'''
BIN = ['intersection', 'join', 'difference', 'symmetricDifference', 'operator&', 'operator|', 'operator-', 'operator^',
       'operator&=', 'operator|=', 'operator-=', 'operator^=']
UN = ['insert', 'erase', 'insert', 'erase', 'complement', 'complemented', 'operator~', 'clear', 'fill', 'swap', 'RangeSet',
      'RangeSet', 'RangeSet', 'RangeSet', 'RangeSet']
SCALES = [0, 1, 2, 3, 4, 5, 1 << 32, 1 << 63, TOP - 1]
LEVELS = [0, 1, 2, 7, 32, 63, 64, 65, 2**32 - 1]


def run(chk):
    prog = Program(build.build_ir(HARNESS, 'C06', passes='inline'))
    OPTS = {'rankdist': True}
    items = []
    K = 4
    for ka in range(K + 1):
        for kb in range(K + 1):
            for a, b in merges(ka, kb):
                for s in range(4):
                    items.append(('bin', s & 1, a, s >> 1, b))
    if chk.thorough:
        for ka, kb in [(5, 3), (3, 5), (6, 2), (2, 6), (5, 4), (4, 5), (6, 4), (4, 6)]:
            for a, b in merges(ka, kb):
                for s in range(4):
                    items.append(('bin', s & 1, a, s >> 1, b))
    KU = 6 if chk.thorough else 4
    for ka in range(KU + 1):
        for s in (0, 1):
            # f and l: both interior (any order), or 0
            for kb in (0, 1, 2):
                for a, b in merges(ka, kb):
                    n = max(a + b, default=0)
                    if kb == 2:
                        pairs = [(b[0], b[1]), (b[1], b[0])]
                    elif kb == 1:
                        pairs = [(b[0], b[0]), (0, b[0]), (b[0], 0)]
                    else:
                        pairs = [(0, 0)]
                    for f, l in pairs:
                        items.append(('un', s, a, f, l, n))
                    if kb == 1:
                        items.append(('one', s, a, b[0], n))
                    if kb == 0:
                        items.append(('one', s, a, 0, n))
                        items.append(('one', s, a, TOP - 1, n))
                        items.append(('iter', s, a, n))
    for ka in range(5 if not chk.thorough else 7):
        for s in (0, 1):
            for k in SCALES:
                items.append(('scale', s, tuple(range(1, ka + 1)), k))
            for k in LEVELS:
                if k in (0, 64, 65, 2**32 - 1) and ka > 2:
                    continue
                items.append(('simp', s, ka, k))

    def L(op):
        import re
        return loc_of(prog, r'RangeSet::%s\(' % re.escape(op))

    def runs(c, fn, opts=OPTS):
        cov = set()
        res = list(explore(prog, fn, opts=dict(opts, cov=cov)))
        c.partitions += len(res)
        src_of(prog, c, cov)
        return res

    def bad(c, r, key, desc):
        if r.alarm is not None or r.exc is not None:
            c.fail('no-fault', key + ':fault', (getattr(r.alarm, 'where', None) or [key])[0], '%s: %s' % (desc(), r.alarm or r.exc))
            return True

    def one(c, it):
        what = it[0]
        if what == 'bin':
            _, sa, a, sb, b = it
            n = max(a + b, default=0)
            va, ka = toggles(sa, a, n)
            vb, kb = toggles(sb, b, n)
            pts = [Fraction(i) for i in range(n + 1)]
            A, B = cells_of(ka, pts), cells_of(kb, pts)
            W = [A & B, A | B, A - B, A ^ B]
            for op in range(12 if chk.thorough or len(a) + len(b) <= 5 else 4):
                def go(m):
                    o = outbuf(m, 192)
                    m.call('h_bin', [mkarr(m, va), len(va), mkarr(m, vb), len(vb), op, o])
                    return o
                key = BIN[op]
                for r in runs(c, go):
                    desc = lambda: '%s of %s and %s' % (key, va, vb)
                    if bad(c, r, key, desc):
                        continue
                    expect_set(c, r.m, r.value, 0, W[op % 4], pts, n, 'set-algebra', key, L(key), desc)
                    expect_set(c, r.m, r.value, 64, B, pts, n, 'operand-unchanged', key + ':operand', L(key), desc)
                    expect_set(c, r.m, r.value, 128, A, pts, n, 'operand-unchanged', key + ':operand', L(key), desc)

            def gr(m):
                o = outbuf(m, 8)
                m.call('h_rel', [mkarr(m, va), len(va), mkarr(m, vb), len(vb), o])
                return [geti(m, o, i) for i in range(6)]
            want = [A >= B, not A & B, bool(A & B), A <= B, A == B, A != B]
            for r in runs(c, gr):
                if bad(c, r, 'relations', lambda: str(it)):
                    continue
                for i, nm in enumerate(['contains', 'isDisjointFrom', 'intersects', 'isWithin', 'operator==', 'operator!=']):
                    c.expect(r.value[i] == int(want[i]), 'set-predicate', nm + '(set)', L(nm),
                             lambda: '%s(%s, %s) is %s' % (nm, va, vb, r.value[i]))
        elif what == 'un':
            _, s, a, f, l, n = it
            va, ka = toggles(s, a, n)
            pts = [Fraction(i) for i in range(n + 1)]
            A = cells_of(ka, pts)
            vf, vl = [atomv(x, n) if x else 0 for x in (f, l)]
            if f == l:
                R = frozenset(pts)
            elif f < l or l == 0:
                R = frozenset(p for p in pts if f <= p and (p < l or l == 0))
            else:
                R = frozenset(p for p in pts if p >= f or p < l)
            Z = frozenset(p for p in pts if p < 1) if n else None
            W = [A | R, A - R, A | R, A - R, frozenset(pts) - A, frozenset(pts) - A, frozenset(pts) - A, frozenset(), frozenset(pts),
                 R, A, R, R, None, A]
            for op in range(15):
                if W[op] is None or (op in (4, 5, 6, 7, 8, 10, 14) and (f or l)) or (op in (9, 11, 12) and len(a) > 2):
                    continue

                def go(m):
                    o = outbuf(m, 192)
                    m.call('h_un', [mkarr(m, va), len(va), vf, vl, op, o])
                    return o
                key = UN[op]
                for r in runs(c, go):
                    desc = lambda: '%s #%d on %s with [%s, %s)' % (key, op, va, vf, vl)
                    if bad(c, r, key, desc):
                        continue
                    expect_set(c, r.m, r.value, 0, W[op], pts, n, 'set-algebra', key, L(key), desc)
                    expect_set(c, r.m, r.value, 64, A, pts, n, 'operand-unchanged', key + ':operand', L(key), desc)

            def gr(m):
                o = outbuf(m, 8)
                m.call('h_rng', [mkarr(m, va), len(va), vf, vl, o])
                return [geti(m, o, i) for i in range(4)]
            want = [A >= R, not A & R, bool(A & R), A <= R]
            for r in runs(c, gr):
                if bad(c, r, 'relations', lambda: str(it)):
                    continue
                for i, nm in enumerate(['contains', 'isDisjointFrom', 'intersects', 'isWithin']):
                    c.expect(r.value[i] == int(want[i]), 'set-predicate', nm + '(first,last)', L(nm),
                             lambda: '%s(%s, [%s, %s)) is %s' % (nm, va, vf, vl, r.value[i]))
        elif what == 'one':
            _, s, a, u, n = it
            va, ka = toggles(s, a, n)
            pts = [Fraction(i) for i in range(n + 1)]
            vu = 0 if u == 0 else u if u == TOP - 1 else atomv(u, n)
            if u == TOP - 1:
                # 2^64-1 may coincide with the last interior point
                q = Fraction(n) + Fraction(3, 4)
            ku = Fraction(u) if u != TOP - 1 else None
            for op in range(5):
                def go(m):
                    if u == TOP - 1 and n:
                        # decide first whether the last interior point is 2^64-1
                        m.decide(atomv(n, n).add(P(TOP - 1), -1), {0})
                    if u not in (0, TOP - 1):
                        m.decide(atomv(u, n).add(P(TOP - 1), -1), {0})
                    o = outbuf(m, 192)
                    if op < 4:
                        m.call('h_one', [mkarr(m, va), len(va), vu, op, o])
                    else:
                        m.call('h_oneq', [mkarr(m, va), len(va), vu, o])
                    return o
                nm = ['insert', 'erase', 'RangeSet', 'RangeSet', 'contains'][op]
                for r in runs(c, go):
                    m = r.m
                    desc = lambda: '%s(%s) on %s' % (nm, vu, va)
                    if bad(c, r, nm + '(u)', desc):
                        continue
                    last_is_max = bool(n) and m.signs(atomv(n, n).add(P(TOP - 1), -1)) == {0}
                    P2 = list(pts)
                    if u == TOP - 1:
                        if last_is_max:
                            U = {Fraction(n)}
                        else:
                            P2.append(q)
                            U = {q}
                    elif ku == n and n and last_is_max:
                        U = {ku}
                    else:
                        P2.append(ku + Fraction(1, 2))
                        U = {ku}
                    P2.sort()
                    A = cells_of(ka, P2)
                    O = {Fraction(0)} | ({Fraction(1, 2)} & set())
                    if op < 4:
                        if op == 3 or op == 2:
                            if op == 3:
                                continue
                            W = frozenset(U)
                        else:
                            W = A | U if op == 0 else A - U
                        if u == TOP - 1 and not last_is_max:
                            # result endpoint 2^64-1 is a constant
                            orig = keyof
                            check_max(c, m, r.value, W, P2, n, q, nm, L(nm), desc)
                        else:
                            expect_set(c, m, r.value, 0, W, P2, n, 'set-algebra', nm + '(u)', L(nm), desc)
                    else:
                        got = [geti(m, r.value, i) for i in range(4)]
                        # the cell after u may be empty; isWithin must ignore it
                        A2 = set(A)
                        h = ku + Fraction(1, 2) if ku is not None else None
                        if h in P2:
                            i = P2.index(h)
                            nx = P(TOP) if i + 1 == len(P2) else atomv(int(P2[i + 1]), n)
                            sg = m.signs(nx.add(P(vu), -1).add(P(1), -1))
                            if sg == {0}:
                                A2.discard(h)
                            elif 0 in sg and h in A2 and A2 <= U | {h}:
                                # undecided adjacency must not matter
                                c.fail('set-predicate', 'isWithin(u)', L('isWithin'), '%s did not separate u+1 from the next endpoint' % desc())
                                continue
                        A2 = frozenset(A2)
                        want = [A2 >= U, not A2 & U, bool(A2 & U), A2 <= U]
                        for i, q2 in enumerate(['contains', 'isDisjointFrom', 'intersects', 'isWithin']):
                            c.expect(got[i] == int(want[i]), 'set-predicate', q2 + '(u)', L(q2),
                                     lambda: '%s(%s, %s) is %s; path %s' % (q2, va, vu, got[i], r.path()))
        elif what == 'iter':
            _, s, a, n = it
            va, ka = toggles(s, a, n)
            pts = [Fraction(i) for i in range(n + 1)]
            A = cells_of(ka, pts)

            def go(m):
                o = outbuf(m, 12)
                m.call('h_iter', [mkarr(m, va), len(va), o])
                return [sgn64(geti(m, o, i)) for i in range(12)]
            nc = (len(a) + (1 - s) + 1) // 2
            for r in runs(c, go):
                if bad(c, r, 'Iterator', lambda: 'iteration of %s' % va):
                    continue
                want = [len(va) // 2] + [1] * 10 + [nc]
                for i in range(12):
                    c.expect(r.value[i] == want[i], 'iterator', 'Iterator#%d' % i, loc_of(prog, r'RangeSet::Iterator::operator'),
                             'iterator law %d gives %s for %s' % (i, r.value[i], va))
        elif what in ('scale', 'simp'):
            spec(c, it)

    def check_max(c, m, out, W, P2, n, q, nm, where, desc):
        """insert/erase of 2^64-1 where no interior endpoint equals it"""
        h, vals, valsc = readset(m, out, 0)

        def key(v, end):
            if v == TOP - 1:
                return q
            return keyof(m, v, n, end)
        try:
            ks = [key(v, i & 1) for i, v in enumerate(vals)]
            kc = [key(v, i & 1) for i, v in enumerate(valsc)]
        except ValueError as e:
            return c.fail('set-algebra', nm + '(u)', where, '%s: endpoint %s' % (desc(), e))
        ok = cells_of(ks, P2) == W and cells_of(kc, P2) == frozenset(P2) - W and all(x < y for x, y in zip(ks, ks[1:])) and h[4] == 1
        ok = ok and len(ks) == 2 * sum(1 for i, p in enumerate(P2) if p in W and (i == 0 or P2[i - 1] not in W))
        c.expect(ok, 'set-algebra', nm + '(u)', where, lambda: '%s gives %s' % (desc(), vals))

    def spec(c, it):
        """scale and simplify against the definition, evaluated in the same
        abstract state"""
        what, s, a, k = it
        if what == 'scale':
            n = len(a)
            va, _ = toggles(s, a, n)
            opts = OPTS
        else:
            n = a
            M = 1 << min(k, 64)
            va = []
            opts = OPTS
        combos = [None]
        if what == 'simp' and 0 < k < 64:
            combos = list(itertools.product((0, 1), repeat=n)) if n <= 3 else [t for t in itertools.product((0, 1), repeat=n)]
        for combo in combos:
            quots = [None]
            if combo is not None:
                # blocks q_i: non-decreasing; equal blocks need increasing remainders
                quots = [w for w in itertools.product((0, 1), repeat=max(n - 1, 0))]
            for qs in quots:
                vals = build_vals(s, n, k, combo, qs) if combo is not None else (
                    va if what == 'scale' else toggles(s, tuple(range(1, n + 1)), n)[0])
                if vals is None:
                    continue

                def go(m):
                    o = outbuf(m, 192)
                    m.call('h_scale' if what == 'scale' else 'h_simp', [mkarr(m, vals), len(vals), k, o])
                    ref = reference(m, vals, what, k)
                    return o, ref
                nm = 'scale' if what == 'scale' else 'simplify'
                for r in runs(c, go, opts):
                    desc = lambda: '%s(%s) of %s' % (nm, k, vals)
                    if bad(c, r, nm, desc):
                        continue
                    o, ref = r.value
                    for off in (0, 64):
                        h, got, gotc = readset(r.m, o, off)
                        want = [x for p in ref for x in p]
                        ok = len(got) == len(want) and all(
                            congruent(r.m, x, y) for i, (x, y) in enumerate(zip(got, want))) and h[4] == 1 and h[0] == len(ref)
                        c.expect(ok, nm, nm, L(nm), lambda: '%s gives %s, definition gives %s; path %s' % (desc(), got, want, r.path()))

    def build_vals(s, n, k, combo, qs):
        """interior points r_i = 2^k q_i + s_i with s_i = 0 or 1 <= s_i < 2^k"""
        M = 1 << k
        Q = 1 << (64 - k)
        ranks = []
        q = 0
        for i in range(n):
            if i == 0 or qs[i - 1]:
                q += 1
            ranks.append(q)
        vals = []
        srank = 0
        # remainders inside one block increase
        for i in range(n):
            same_prev = i > 0 and not qs[i - 1]
            if combo[i] == 0 and same_prev:
                return None
        blocks = max(ranks, default=0)
        if blocks > Q - (1 if n and combo[0] == 0 else 0):
            return None
        first0 = False
        for i in range(n):
            # block of the first point may be block 0 when its remainder is positive
            qa = sym('q%d' % ranks[i], ranks[i] - 1, Q - 1 - (blocks - ranks[i]), rank=Fraction(ranks[i]), isint=True)
            if combo[i]:
                j = sum(1 for z in range(i) if ranks[z] == ranks[i] and combo[z]) + 1
                tot = sum(1 for z in range(n) if ranks[z] == ranks[i] and combo[z])
                if M - 1 < tot:
                    return None
                vals.append(qa.scale(M).add(sym('s%d_%d' % (ranks[i], j), j, M - 1 - (tot - j), rank=Fraction(j), isint=True)))
            else:
                if ranks[i] == 1:
                    qa = sym('Q%d' % ranks[i], 1, Q - 1 - (blocks - ranks[i]), rank=Fraction(ranks[i]), isint=True)
                    if any(ranks[z] == 1 for z in range(n) if z != i):
                        # same block also holds other points: use one atom
                        pass
                vals.append(qa.scale(M))
        # one atom per block: harmonise a block that starts on its boundary
        if n and combo[0] == 0:
            qa = sym('Q1', 1, Q - 1 - (blocks - 1), rank=Fraction(1), isint=True)
            q0 = sym('q1', 0, Q - 1 - (blocks - 1), rank=Fraction(1), isint=True)
            for i in range(n):
                if ranks[i] == 1:
                    vals[i] = Poly({tuple((qa.single_atom() if x is q0.single_atom() else x, e) for x, e in mm): cc
                                    for mm, cc in vals[i].t.items()})
        v = ([0] if s else []) + vals
        if len(v) % 2:
            v.append(0)
        return v

    def reference(m, vals, what, k):
        out = []
        for i in range(0, len(vals), 2):
            f = P(vals[i])
            l = P(vals[i + 1])
            if not l.t:
                l = P(TOP)
            if what == 'scale':
                f, l = f.scale(k), l.scale(k)
                if k == 0:
                    continue
                if m.decide(f.add(P(TOP), -1), {0, 1}):
                    break
                if m.decide(l.add(P(TOP), -1), {0, 1}):
                    l = P(TOP)
                    out.append([f, l])
                    break
            elif k == 0:
                pass
            elif k >= 64:
                f, l = P(0), P(TOP)
            else:
                M = 1 << k
                f = f.add(P(m.lowbits(f, k)), -1)
                lb = m.lowbits(l, k)
                if not (isinstance(lb, int) and lb == 0):
                    l = l.add(P(lb), -1).add(P(M))
            if out and m.decide(f.add(P(out[-1][1]), -1), {0, -1}):
                out[-1][1] = l
            else:
                out.append([f, l])
        return out

    parallel(chk, items, one)
    # positive control: a deliberately wrong expectation must be reported
    probe = chk.fresh()
    o = [r for r in explore(prog, lambda m: (lambda o: (m.call('h_bin', [mkarr(m, [1, 5]), 2, mkarr(m, [3, 9]), 2, 0, o]), o)[1])(outbuf(m, 192)))]
    h, v, _ = readset(o[0].m, o[0].value, 0)
    if v != [3, 5]:
        probe.fail('x', 'x', '', '')
    chk.info['operands'] = len(items)
    chk.info['scale_factors'] = SCALES
    chk.info['simplify_levels'] = LEVELS
    chk.need('set-algebra', 15000)
    chk.need('set-predicate', 15000)
    chk.need('scale', 100)
    chk.need('simplify', 100)
    chk.need('iterator', 60)


def congruent(m, x, y):
    d = P(x).add(P(y), -1)
    lo, hi = m.rng(d)
    if lo == hi:
        return lo % TOP == 0
    return m.signs(d) == {0}


def sgn64(v):
    return v - TOP if isinstance(v, int) and v >> 63 else v
