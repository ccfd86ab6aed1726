"""C13: space-filling curve indexes are bijections."""
from common import *
from framework import parallel
from absint import BitVal, tobits, frombits, Unsupported

EXPLANATION = (
    'Bit-level abstract interpretation of the IR of curve.h, with and without SIMD. Every bit of the inputs is a symbol: mortonIndex must '
    'interleave the bits of x and y, mortonIndexInverse must separate them. mortonToHilbert and hilbertToMorton are interpreted with table lookups '
    'kept symbolic for every order m from 0 to 32: each lookup must be indexed by the state returned by the previous lookup and the next 3 (or, '
    'last, 1 or 2) bit pairs, and the result must be the concatenation of the looked up bits. The two tables are then decided as finite state transducers: '
    'equal to the 3-fold composition of the 4-state Hilbert automaton and of its inverse, whose steps are permutations with adjacent consecutive '
    'cells and matching corners; so, by induction on m, the maps are mutually inverse bijections and consecutive indexes are neighbouring cells. '
    'log2 is interpreted for each position of the leading bit with the lower bits unknown.')
ASSUMPTIONS = ['the curve order m is at most 32 (documented: coordinates are 32 bit integers)']

HARNESS = r'''
#include "lsst/sphgeom/curve.h"
using namespace lsst::sphgeom;
extern "C" std::uint64_t h_morton(std::uint32_t x, std::uint32_t y) { return mortonIndex(x, y); }
extern "C" void h_mortonInv(std::uint64_t z, std::uint32_t *o) { std::tie(o[0], o[1]) = mortonIndexInverse(z); }
extern "C" std::uint64_t h_m2h(std::uint64_t z, int m) { return mortonToHilbert(z, m); }
extern "C" std::uint64_t h_h2m(std::uint64_t h, int m) { return hilbertToMorton(h, m); }
extern "C" std::uint64_t h_hilbert(std::uint32_t x, std::uint32_t y, int m) { return hilbertIndex(x, y, m); }
extern "C" void h_hilbertInv(std::uint64_t h, int m, std::uint32_t *o) { std::tie(o[0], o[1]) = hilbertIndexInverse(h, m); }
extern "C" unsigned h_log64(std::uint64_t x) { return log2(x); }
extern "C" unsigned h_log32(std::uint32_t x) { return log2(x); }
#if !defined(NO_SIMD)
extern "C" std::uint64_t h_mortonV(std::uint32_t x, std::uint32_t y) { return mortonIndex(_mm_set_epi64x(y, x)); }
extern "C" void h_mortonInvV(std::uint64_t z, std::uint32_t *o) {
  __m128i v = mortonIndexInverseSimd(z);
  std::uint64_t a = _mm_cvtsi128_si64(v), b = _mm_cvtsi128_si64(_mm_unpackhi_epi64(v, v)); o[0] = a & 0xffffffff; o[1] = b & 0xffffffff; }
extern "C" std::uint64_t h_hilbertV(std::uint32_t x, std::uint32_t y, int m) { return hilbertIndex(_mm_set_epi64x(y, x), m); }
extern "C" void h_hilbertInvV(std::uint64_t h, int m, std::uint32_t *o) {
  __m128i v = hilbertIndexInverseSimd(h, m);
  std::uint64_t a = _mm_cvtsi128_si64(v), b = _mm_cvtsi128_si64(_mm_unpackhi_epi64(v, v)); o[0] = a & 0xffffffff; o[1] = b & 0xffffffff; }
#endif
'''
# the 4-state automaton of the documentation: (state << 2 | input pair) -> (state << 2 | output pair)
STEP = [(0x8d3ec79a6b5021f4 >> (4 * i)) & 15 for i in range(16)]


def automaton(chk):
    """the oracle itself is a Hilbert curve"""
    inv = {}
    for s in range(4):
        chk.expect(sorted(STEP[s * 4 + c] & 3 for c in range(4)) == [0, 1, 2, 3], 'automaton', 'state%d' % s, 'oracle', 'not a permutation')
        for c in range(4):
            n = STEP[s * 4 + c]
            inv[s * 4 + (n & 3)] = (n & 12) | c
    # pair c: bit 0 is the x bit, bit 1 the y bit; entry and exit corners of a state
    cell = lambda s, w: inv[s * 4 + w] & 3
    nxt = lambda s, w: inv[s * 4 + w] >> 2
    ent = {s: cell(s, 0) for s in range(4)}
    ext = {s: cell(s, 3) for s in range(4)}
    for s in range(4):
        chk.expect(ent[nxt(s, 0)] == ent[s] and ext[nxt(s, 3)] == ext[s], 'automaton', 'corner%d' % s, 'oracle', 'corners drift')
        for w in range(3):
            a, b = cell(s, w), cell(s, w + 1)
            ax, ay, bx, by = a & 1, a >> 1, b & 1, b >> 1
            ok = abs(ax - bx) + abs(ay - by) == 1
            # exit corner of the first touches the entry corner of the second, in a 4x4 grid
            e, f = ext[nxt(s, w)], ent[nxt(s, w + 1)]
            ex, ey, fx, fy = ax * 2 + (e & 1), ay * 2 + (e >> 1), bx * 2 + (f & 1), by * 2 + (f >> 1)
            chk.expect(ok and abs(ex - fx) + abs(ey - fy) == 1, 'automaton', 'adjacent%d.%d' % (s, w), 'oracle', 'consecutive cells do not touch')
    chk.expect(ent[0] == 0, 'automaton', 'origin', 'oracle', 'the curve does not start at the origin')
    # the number of pairs consumed is all the state depends on besides the input, so prefixes agree
    return inv


def compose3(step):
    t = []
    for i in range(256):
        s, out = i >> 6, 0
        for k in (4, 2, 0):
            n = step[s * 4 + ((i >> k) & 3)]
            s, out = n >> 2, out << 2 | (n & 3)
        t.append(s << 6 | out)
    return t


def names(pre, n):
    return BitVal((pre, i) for i in range(n))


def runs(chk, prog, fn, key, where, opts):
    res = []
    cov = set()
    for r in explore(prog, fn, opts=dict(opts, cov=cov)):
        chk.partitions += 1
        if r.alarm is not None or r.exc is not None:
            chk.fail('no-fault', key, (getattr(r.alarm, 'where', None) or [where])[0], '%s: %s' % (key, r.alarm or r.exc))
            continue
        res.append(r)
    src_of(prog, chk, cov)
    return res


def out32(m, p, i):
    return m.load(Ptr(p.obj, p.off + 4 * i), ['i', 32], 4)


def check_morton(chk, prog, tag):
    suf = [''] if tag == 'scalar' else ['', 'V']
    w = loc_of(prog, r'mortonIndex')
    for x in suf:
        for r in runs(chk, prog, lambda m: m.call('h_morton' + x, [names('x', 32), names('y', 32)]), 'mortonIndex', w, {'bitlazy': True}):
            want = tuple(('x' if i % 2 == 0 else 'y', i // 2) for i in range(64))
            got = tobits(r.value, 64)
            for i in range(64):
                chk.expect(got[i] == want[i], 'interleave', 'mortonIndex:' + tag, w, lambda i=i: 'bit %d of the %s mortonIndex is %s, not bit %d of %s' % (
                    i, tag, got[i], want[i][1], want[i][0]))

        def inv(m):
            o = outbuf(m, 2)
            m.call('h_mortonInv' + x, [names('z', 64), o])
            return o
        w2 = loc_of(prog, r'mortonIndexInverse')
        for r in runs(chk, prog, inv, 'mortonIndexInverse', w2, {'bitlazy': True}):
            for j in range(2):
                got = tobits(out32(r.m, r.value, j), 32)
                for i in range(32):
                    chk.expect(got[i] == ('z', 2 * i + j), 'separate', 'mortonIndexInverse:' + tag, w2, lambda i=i: 'bit %d of %s of the %s mortonIndexInverse is %s, not bit %d of z'
                               % (i, 'xy'[j], tag, got[i], 2 * i + j))


class Lut:
    def __init__(self):
        self.loads = []

    def __call__(self, m, obj, idx, size):
        """a symbolic table lookup"""
        if size != 1:
            raise Unsupported('lookup of %d bytes' % size)
        k = len(m.luts)
        n = max((i + 1 for i, b in enumerate(idx.b) if b != 0), default=0)
        tab = tuple(o_byte(m, obj, i) for i in range(obj.size))
        if n > (len(tab) - 1).bit_length():
            raise Alarm('bounds', 'index of %d bits into %s of %d bytes' % (n, obj.name, obj.size))
        m.luts.append((obj.name, tab, idx.b))
        return BitVal(('lut', k, i) for i in range(8))


def o_byte(m, obj, i):
    return m.load(Ptr(obj, i), ['i', 8], 1)


def check_hilbert(chk, prog, tag, inv, m):
    T = {'m2h': compose3(STEP), 'h2m': compose3([inv[i] for i in range(16)])}
    cases = [('h_m2h', 'mortonToHilbert', 'm2h', 0), ('h_h2m', 'hilbertToMorton', 'h2m', 0), ('h_hilbert', 'hilbertIndex', 'm2h', 1), ('h_hilbertInv', 'hilbertIndexInverse', 'h2m', 2)]
    if tag == 'simd':
        cases += [('h_hilbertV', 'hilbertIndex', 'm2h', 1), ('h_hilbertInvV', 'hilbertIndexInverse', 'h2m', 2)]
    for fn, name, tn, kind in cases:
        w = loc_of(prog, r'sphgeom::%s\(' % name)
        key = name + ':' + tag

        def go(mm):
            mm.luts = []
            if kind == 0:
                return mm.call(fn, [names('z', 64), m])
            if kind == 1:
                return mm.call(fn, [names('x', 32), names('y', 32), m])
            o = outbuf(mm, 2)
            mm.call(fn, [names('z', 64), m, o])
            x, y = tobits(out32(mm, o, 0), 32), tobits(out32(mm, o, 1), 32)
            return frombits(sum(((x[i], y[i]) for i in range(32)), ()))
        z = [('z', i) for i in range(64)] if kind != 1 else [('xy'[i % 2], i // 2) for i in range(64)]
        rs = runs(chk, prog, go, key, w, {'bitlazy': True, 'lut': Lut()})
        for r in rs:
            L = r.m.luts
            nl = (m + 2) // 3
            if not chk.expect(len(L) == nl, 'transducer', key, w, lambda: '%s with m = %d makes %d lookups, not %d' % (name, m, len(L), nl)):
                continue
            pos, state, want = 2 * m, (0, 0), []
            for k in range(nl):
                n = min(6, pos)
                pos -= n
                idx = tuple([0] * (6 - n)) + tuple(z[pos:pos + n]) + state
                got = tuple(L[k][2]) + (0,) * 8
                chk.expect(got[:8] == idx and not any(got[8:]), 'transducer', key, w, lambda k=k: 'lookup %d of %s with m = %d uses index bits %s, not %s' % (k, name, m, got[:8], idx))
                chk.expect(list(L[k][1]) == T[tn], 'table', key, w, lambda k=k: '%s is not the composition of 3 steps of the curve automaton: entry %s' % (
                    L[k][0], next((i, hex(a), hex(b)) for i, (a, b) in enumerate(zip(list(L[k][1]) + [0] * 256, T[tn])) if a != b)))
                want = [('lut', k, i) for i in range(6 - n, 6)] + want
                state = (('lut', k, 6), ('lut', k, 7))
            got = tobits(r.value, 64)
            want += [0] * (64 - len(want))
            chk.expect(list(got) == want, 'transducer', key, w, lambda: '%s with m = %d returns bits %s, not %s' % (name, m, got, want))


def check_log2(chk, prog, tag):
    for fn, w in (('h_log64', 64), ('h_log32', 32)):
        l = loc_of(prog, r'sphgeom::log2\(unsigned %s' % ('long' if w == 64 else 'int'))
        for k in range(-1, w):
            def go(m):
                x = BitVal([('x', i) for i in range(k)] + [1] + [0] * (w - k - 1)) if k > 0 else (1 if k == 0 else 0)
                return m.call(fn, [x])
            for r in runs(chk, prog, go, 'log2', l, {'bitlazy': True}):
                chk.expect(r.value == max(k, 0), 'log2', 'log2:%d' % w, l, lambda: 'log2 of a %d bit integer with leading bit %d is %r' % (w, k, r.value))


def run(chk):
    progs = {t: Program(build.build_ir(HARNESS, 'curve_' + t, defs=d)) for t, d in (('simd', ()), ('scalar', ('NO_SIMD',)))}
    inv = automaton(chk)
    items = [(t, 'morton', 0) for t in progs] + [(t, 'log2', 0) for t in progs] + [(t, 'hilbert', m) for t in progs for m in range(33)]

    def one(c, it):
        t, what, m = it
        if what == 'morton':
            check_morton(c, progs[t], t)
        elif what == 'log2':
            check_log2(c, progs[t], t)
        else:
            check_hilbert(c, progs[t], t, inv, m)
    parallel(chk, items, one)
    chk.need('transducer', 2000)
    chk.need('interleave', 190)
    chk.need('log2', 190)
    chk.need('table', 1000)
    chk.need('automaton', 20)
