"""C14: pixel indexes, levels, names and neighbourhoods are consistent."""
from common import *
from framework import parallel
from absint import BitVal, tobits, frombits, Unsupported, Vec, bitpoly

EXPLANATION = (
    'Abstract interpretation of the IR of the HTM, Q3C and modified Q3C pixelizations. Index bits, levels and unit vectors are unknown. Levels outside the '
    'documented range must be rejected and valid ones kept; level(i) and the validity tests of pixel(), quad(), triangle(), neighborhood() and the string '
    'conversions are decided for every position of the leading bits; the universe for every level; names digit by digit. index(): for all points of each face, '
    'edge and corner the face number is never the unused marker, and the grid coordinates are the documented functions of the point, clamped to the grid, with '
    'and without SIMD. quad(): its corners project exactly onto the dilated square of grid cell (s,t), counter-clockwise. neighborhood(): for each face and every (s,t) '
    'each returned pixel shares a corner of the cube surface grid with the argument, and their number is the documented one. HTM: the root triangle and each child chosen by '
    'index() contain the point given the orientations found on the path, and triangle() builds the same corners.')
ASSUMPTIONS = ['exact reals in place of floating point for the grid coordinates', 'HTM levels above 2 repeat the loop body analysed at levels 1 and 2']

HARNESS = r'''
#include <stdexcept>
#include <cstring>
#include <vector>
#include "lsst/sphgeom/HtmPixelization.h"
#include "lsst/sphgeom/Q3cPixelization.h"
#include "lsst/sphgeom/Mq3cPixelization.h"
#include "lsst/sphgeom/ConvexPolygon.h"
using namespace lsst::sphgeom;
template <typename F> static int guard(F f) { try { f(); } catch (std::invalid_argument const &) { return 1; } catch (std::exception const &) { return 2; } return 0; }
extern "C" int h_level(int kind, std::uint64_t i) { return kind == 0 ? HtmPixelization::level(i) : Mq3cPixelization::level(i); }
extern "C" int h_ctor(int kind, int level, std::int64_t *o) { return guard([&] {
  o[0] = kind == 0 ? HtmPixelization(level).getLevel() : kind == 1 ? Q3cPixelization(level).getLevel() : Mq3cPixelization(level).getLevel(); }); }
template <typename F> static void with(int kind, int L, F f) {
  if (kind == 0) { HtmPixelization p(L); f(p); } else if (kind == 1) { Q3cPixelization p(L); f(p); } else { Mq3cPixelization p(L); f(p); } }
extern "C" int h_universe(int kind, int L, std::uint64_t *o) { return guard([&] { with(kind, L, [&](auto const &p) { RangeSet u = p.universe();
  o[0] = u.size(); o[1] = std::get<0>(*u.begin()); o[2] = std::get<1>(*u.begin()); }); }); }
extern "C" std::uint64_t h_index(int kind, int L, double const *v) {
  UnitVector3d u = UnitVector3d::fromNormalized(v[0], v[1], v[2]); std::uint64_t r = 0;
  if (kind == 0) { HtmPixelization p(L); r = p.index(u); } else if (kind == 1) { Q3cPixelization p(L); r = p.index(u); } else { Mq3cPixelization p(L); r = p.index(u); }
  return r; }
extern "C" int h_pixel(int kind, int L, std::uint64_t i, int viaStatic, double *o, std::int64_t *n) { return guard([&] {
  ConvexPolygon c = [&] {
    if (viaStatic) { return kind == 0 ? HtmPixelization::triangle(i) : kind == 1 ? Q3cPixelization(L).quad(i) : Mq3cPixelization::quad(i); }
    std::unique_ptr<Region> r;
    with(kind, L, [&](auto const &p) { r = p.pixel(i); });
    return static_cast<ConvexPolygon const &>(*r); }();
  std::vector<UnitVector3d> const &v = c.getVertices();
  *n = v.size();
  for (size_t k = 0; k < v.size() && k < 8; ++k) { for (int j = 0; j < 3; ++j) { o[3 * k + j] = v[k](j); } } }); }
extern "C" int h_str(int kind, int L, std::uint64_t i, int viaStatic, char *o, std::int64_t *n) { return guard([&] {
  std::string s;
  if (viaStatic) { s = kind == 0 ? HtmPixelization::asString(i) : Mq3cPixelization::asString(i); }
  else { with(kind, L, [&](auto const &p) { s = p.toString(i); }); }
  *n = s.size();
  std::memcpy(o, s.data(), s.size()); }); }
extern "C" int h_nbr(int kind, int L, std::uint64_t i, std::uint64_t *o, std::int64_t *n) { return guard([&] {
  std::vector<std::uint64_t> v = kind == 1 ? Q3cPixelization(L).neighborhood(i) : Mq3cPixelization::neighborhood(i);
  *n = v.size();
  for (size_t k = 0; k < v.size() && k < 16; ++k) o[k] = v[k]; }); }
'''
KIND = ['HtmPixelization', 'Q3cPixelization', 'Mq3cPixelization']
MAXL = [24, 30, 30]
ROOT0 = [8, 0, 10]
NROOT = [8, 6, 6]
# documented face planes and (u, v) axes: face -> (axis, sign) of w, u, v
Q3C = {0: ((2, 1), (1, 1), (0, -1)), 1: ((0, 1), (1, 1), (2, 1)), 2: ((1, 1), (0, -1), (2, 1)),
       3: ((0, -1), (1, -1), (2, 1)), 4: ((1, -1), (0, 1), (2, 1)), 5: ((2, -1), (1, 1), (0, 1))}
MQ3C = {10: ((2, -1), (0, 1), (1, 1)), 11: ((0, 1), (1, 1), (2, 1)), 12: ((1, 1), (2, 1), (0, -1)),
        13: ((2, 1), (0, -1), (1, -1)), 14: ((0, -1), (1, -1), (2, -1)), 15: ((1, -1), (2, -1), (0, 1))}
FACES = [None, Q3C, MQ3C]
NAME = ['XYZ'[i] for i in range(3)]


def runs(chk, prog, fn, key, where, opts, stubs=None, maxpaths=20000):
    res, cov = [], set()
    for r in explore(prog, fn, stubs=stubs, opts=dict(opts, cov=cov), maxpaths=maxpaths):
        chk.partitions += 1
        if r.alarm is not None or r.exc is not None:
            chk.fail('no-fault', key, (getattr(r.alarm, 'where', None) or [where])[0], '%s: %s; path: %s' % (key, r.alarm or r.exc, r.path(12)))
            continue
        chk.ok('no-fault')
        res.append(r)
    src_of(prog, chk, cov)
    return res


def lead(name, k, bits=0, nb=0):
    """an integer whose leading bit is k, followed by nb fixed bits"""
    if k < 0:
        return 0
    b = [(name, i) for i in range(64)]
    for i in range(64):
        if i > k:
            b[i] = 0
    b[k] = 1
    for j in range(nb):
        if k - 1 - j >= 0:
            b[k - 1 - j] = (bits >> (nb - 1 - j)) & 1
    return frombits(tuple(b))


def loc(prog, kind, fn):
    return loc_of(prog, r'%s::%s\(' % (KIND[kind], fn))


def chk_level(c, prog):
    for kind in (0, 2):
        w = loc(prog, kind, 'level')
        for k in range(-1, 64):
            for nb in (range(8) if kind == 2 and k >= 3 else [0]):
                i = lead('i', k, nb, 3 if kind == 2 and k >= 3 else 0)
                ok = k >= 3 and k % 2 == 1 and (kind == 0 or 8 + nb >= 10)
                want = (k - 3) // 2 if ok else -1
                for r in runs(c, prog, lambda m: m.call('h_level', [kind, i]), 'level', w, {'bitlazy': True}):
                    v = r.value - (1 << 32) if isinstance(r.value, int) and r.value >> 31 else r.value
                    c.expect(v == want, 'level', '%s.level' % KIND[kind], w, lambda: '%s::level of an index with leading bit %d%s is %s, not %d' % (
                        KIND[kind], k, ' and top bits %s' % bin(8 + nb) if kind == 2 else '', v, want))


def chk_ctor(c, prog):
    for kind in range(3):
        w = loc(prog, kind, KIND[kind])

        def go(m):
            l = sym('level', -2**31, 2**31 - 1, isint=True)
            o = outbuf(m, 1)
            return l, m.call('h_ctor', [kind, l, o]), o
        for r in runs(c, prog, go, 'ctor', w, {}):
            l, rc, o = r.value
            bad = r.m.signs(P(l)) == {-1} or r.m.signs(P(l).add(P(-MAXL[kind]))) == {1}
            good = r.m.signs(P(l)) <= {0, 1} and r.m.signs(P(l).add(P(-MAXL[kind]))) <= {0, -1}
            c.expect((good and rc == 0) or (bad and rc == 1), 'constructor', KIND[kind], w, lambda: '%s(level) %s for levels in %s' % (
                KIND[kind], ['succeeds', 'throws invalid_argument', 'throws something else'][rc], r.m.rng(P(l))))
            if rc == 0:
                v = geti(r.m, o, 0)
                c.expect(same_int(r.m, v, l), 'constructor', KIND[kind] + '.getLevel', w, lambda: 'getLevel() is %s' % (v,))


def same_int(m, a, b):
    d = P(a).add(P(b), -1)
    return not d.t or m.signs(d) == {0}


def chk_universe(c, prog):
    for kind in range(3):
        w = loc(prog, kind, 'universe')
        for L in range(MAXL[kind] + 1):
            def go(m):
                o = outbuf(m, 3)
                return m.call('h_universe', [kind, L, o]), o
            for r in runs(c, prog, go, 'universe', w, {}):
                rc, o = r.value
                got = (rc,) + tuple(geti(r.m, o, j) for j in range(3))
                want = (0, 1, ROOT0[kind] << 2 * L, ((ROOT0[kind] + NROOT[kind]) << 2 * L) % 2 ** 64)
                c.expect(got == want, 'universe', KIND[kind], w, lambda: 'universe at level %d is (status, ranges, first, last) %s, not %s' % (L, got, want))


def valid_cases(kind, L):
    """(index, valid, root or None): every leading bit pattern"""
    for k in range(-1, 64):
        w = 3 if kind == 1 else 4
        # number of bits shown above the low 2L: enumerate the root for leading bits just above 2L
        n = k - 2 * L
        if kind == 1:
            if n < 0:
                yield lead('i', k), True, 0, k
            elif n <= 2:
                for x in range(1 << n):
                    yield lead('i', k, x, n), (1 << n) + x < 6, (1 << n) + x, k
            else:
                yield lead('i', k), False, None, k
        else:
            if n == 3:
                for x in range(8):
                    yield lead('i', k, x, 3), 8 + x >= ROOT0[kind], 8 + x, k
            else:
                yield lead('i', k), False, None, k


def digits_ok(got, kind, root, L, idx):
    """the expected characters"""
    out = []
    b = tobits(idx, 64)
    if kind == 0:
        out.append(ord('S') if root < 12 else ord('N'))
        out.append(ord('0') + (root & 3))
    else:
        ax, sg = FACES[kind][root][0]
        out += [ord('+' if sg > 0 else '-'), ord('XYZ'[ax])]
    for l in range(L - 1, -1, -1):
        out.append(frombits(tuple(b[2 * l:2 * l + 2]) + (0, 0, 1, 1, 0, 0)))
    return out


def chk_names(c, prog, kind, L):
    w = loc(prog, kind, 'toString')
    for via in ((0, 1) if kind != 1 else (0,)):
        if kind == 0 and via == 0:
            pass
        for idx, ok, root, k in valid_cases(kind, L):
            # other levels are valid for the static functions
            if kind != 1 and not ok and root is None and k >= 3 and k % 2 == 1:
                continue

            def go(m):
                o, n = Obj('chars', 64, 'heap'), outbuf(m, 1)
                return m.call('h_str', [kind, L, idx, via, Ptr(o, 0), n]), o, n
            for r in runs(c, prog, go, 'toString', w, {'bitlazy': True}):
                rc, o, n = r.value
                if not ok:
                    c.expect(rc == 1, 'invalid-index', '%s.toString' % KIND[kind], w, lambda: 'the name of the invalid index %s at level %d: status %d' % (idx, L, rc))
                    continue
                if not c.expect(rc == 0, 'name', '%s.toString' % KIND[kind], w, lambda: 'the name of the valid index %s at level %d throws' % (idx, L)):
                    continue
                want = digits_ok(None, kind, root, L, idx)
                ln = geti(r.m, n, 0)
                got = [r.m.load(Ptr(o, j), ['i', 8], 1) for j in range(ln)] if isinstance(ln, int) and ln <= 64 else ln
                c.expect(got == want, 'name', '%s.toString' % KIND[kind], w, lambda: 'level %d index %s is named %s, not %s' % (L, idx, got, want))


def chk_valid(c, prog, kind, L):
    """rejection of invalid indexes, without building the geometry"""
    def opaque_ret(m, a):
        return None
    w = loc(prog, kind, 'pixel')
    fns = [('pixel', lambda m, i, o, n: m.call('h_pixel', [kind, L, i, 0, o, n])), ('quad' if kind else 'triangle', lambda m, i, o, n: m.call('h_pixel', [kind, L, i, 1, o, n]))]
    if kind:
        fns.append(('neighborhood', lambda m, i, o, n: m.call('h_nbr', [kind, L, i, o, n])))
    for name, f in fns:
        for idx, ok, root, k in valid_cases(kind, L):
            if ok:
                continue
            if kind != 1 and root is None and k >= 3 and k % 2 == 1 and not (name == 'pixel' and kind == 2):
                continue

            def go(m):
                o, n = outbuf(m, 32), outbuf(m, 1)
                return f(m, idx, o, n)
            for r in runs(c, prog, go, name, w, {'bitlazy': True, 'bitpoly': True}):
                c.expect(r.value == 1, 'invalid-index', '%s.%s' % (KIND[kind], name), loc(prog, kind, name), lambda: '%s::%s at level %d accepts the invalid index %s (status %s)' % (
                    KIND[kind], name, L, idx, r.value))


# ---- index() on the cube faces ---------------------------------------------
def assume(m, p, s):
    t = m.signs(p) & s
    if not t:
        raise build.AnalysisError('contradictory assumption')
    m.learn(p, t)


def chk_index(c, prog, kind, L, tag):
    w = loc(prog, kind, 'index')
    F = FACES[kind]
    for face, (W, U, V) in F.items():
        rec = {}

        def stub(m, a):
            if isinstance(a[0], Vec):
                st, extra = list(a[0]), a[1:]
            else:
                st, extra = a[:2], a[2:]
            if extra and extra[0] != L:
                raise Alarm('order', 'the curve order is %s at level %d' % (extra[0], L))
            if hasattr(m, 'st'):
                raise Alarm('order', 'two curve indexes')
            m.st = st
            return BitVal(('q', i) for i in range(2 * L)) if L else 0
        stubs = {}
        for n in symbols(prog, r'sphgeom::%s\(' % ('mortonIndex' if kind == 1 else 'hilbertIndex')):
            stubs[n] = stub

        for uu in (-1, 0, 1):
            for vv in (-1, 0, 1):
                def go(m):
                    p = [None] * 3
                    x, y, z = sym('w', 0, 1), sym('u', -1, 1), sym('v', -1, 1)
                    m.learn(P(x), {1})
                    # |u| <= w, |v| <= w; uu, vv: on the lower edge, inside, on the upper edge
                    for a, e in ((y, uu), (z, vv)):
                        if e == 0:
                            assume(m, P(x).add(P(a)), {1})
                            assume(m, P(x).add(P(a), -1), {1})
                    y2 = P(y) if uu == 0 else P(x).scale(uu)
                    z2 = P(z) if vv == 0 else P(x).scale(vv)
                    for (ax, sg), val in ((W, P(x)), (U, y2), (V, z2)):
                        p[ax] = val.scale(sg)
                    b = outbuf(m, 3)
                    for j in range(3):
                        m.store(Ptr(b.obj, 8 * j), p[j], ['d'], 8)
                    r = m.call('h_index', [kind, L, b])
                    return r, p, (x, y2, z2)
                desc = 'face %d, %s' % (face, {0: 'inside'}.get(abs(uu) + abs(vv), 'edge %d,%d' % (uu, vv)))
                rs = runs(c, prog, go, '%s.index' % KIND[kind], w, {'poly': True, 'bitlazy': True, 'bitpoly': True, 'align': True, 'invfactor': True}, stubs=stubs)
                for r in rs:
                    m = r.m
                    v, p, (x, y2, z2) = r.value
                    b = tobits(v, 64)
                    top = frombits(b[2 * L:])
                    key = '%s.index:%s' % (KIND[kind], tag)
                    if not c.expect(isinstance(top, int) and top in F and all(b[i] == ('q', i) for i in range(2 * L)), 'face', key, w,
                                    lambda: '%s: index() is %s at level %d' % (desc, v, L)):
                        continue
                    W2, U2, V2 = F[top]
                    pw = P(p[W2[0]]).scale(W2[1])
                    # the face must contain the point: its coordinate is maximal
                    okf = all(m.signs(pw.add(P(p[j]).scale(s))) <= {0, 1} for j in range(3) for s in (1, -1))
                    if not c.expect(okf and (top == face or uu or vv), 'face', key, w, lambda: '%s: index() chooses face %d' % (desc, top)):
                        continue
                    g = P(Fraction(2) ** (L - 1))
                    iw = m.inv(pw)
                    for q, (ax, sg) in ((0, U2), (1, V2)):
                        e = P(p[ax]).scale(sg).mul(iw)
                        grid(c, m, kind, L, e, P(p[ax]).scale(sg), r.m.st[q], g, key, w, desc, 'st'[q])


def grid(c, m, kind, L, e, num, got, g, key, w, desc, name):
    """got must be trunc(clamp(f(e) * 2^(L-1) + 2^(L-1), 0, 2^L - 1))"""
    M = 2 ** L - 1
    if isinstance(got, Poly) and not got.is_const():
        at = got.single_atom()
        arg = P(at.args[0]) if at is not None and at.kind == 'trunc' else P(got)
        if not c.expect(m.signs(arg) <= {0, 1} and (m.signs(arg.add(P(-M))) <= {0, -1} or m.signs(arg.add(P(-M - 1))) <= {-1}), 'grid', key, w,
                        lambda: '%s: %s coordinate %s not confined to [0, %s] at level %d' % (desc, name, got, M, L)):
            return
    if kind == 2:
        # f(x) = x (4 - |x|) / 3
        s = m.signs(num)
        s = s & m.signs(e)
        sg = 0 if s == {0} else 1 if s <= {0, 1} else -1 if s <= {0, -1} else None
        if sg is None:
            c.expect(False, 'grid', key, w, lambda: '%s: the sign of %s is not used' % (desc, name))
            return
    if isinstance(got, int) or got.is_const():
        v = got if isinstance(got, int) else int(got.cval())
        # clamped: the path must say so
        if kind == 1:
            t = e.mul(g).add(g)
            ok = (v == 0 and m.signs(t.add(P(-1))) <= {-1, 0} or v == 0 and M == 0) or (v == M and m.signs(t.add(P(-M))) <= {0, 1}) or (
                t.is_const() and v == min(max(int(t.cval()), 0), M))
        else:
            ok = v in (0, M) or (not num.t and v == min(2 ** L // 2, M))
            t = 'f(%s)' % e
        c.expect(ok, 'grid', key, w, lambda: '%s: %s is %d on a path where it should be trunc(%s)' % (desc, name, v, t))
        return
    a = got.single_atom()
    if not c.expect(a is not None and a.kind == 'trunc', 'grid', key, w, lambda: '%s: %s is %s' % (desc, name, got)):
        return
    t = P(a.args[0])
    if kind == 1:
        want = e.mul(g).add(g)
        c.expect(t.add(want, -1).t == {} or m.signs(t.add(want, -1)) == {0}, 'grid', key, w, lambda: '%s: %s is trunc(%s), not trunc(%s)' % (desc, name, t, want))
    else:
        want = e.mul(g).scale(Fraction(4, 3)).add(e.mul(e).mul(g).scale(Fraction(-sg, 3))).add(g)
        d = t.add(want, -1)
        if sg == 0:
            d = Poly({mm: k for mm, k in d.t.items() if not mm})
        c.expect(near0(d, Fraction(1, 10 ** 15) * 2 ** L), 'grid', key, w, lambda: '%s: %s is trunc(%s), not trunc(%s)' % (desc, name, t, want))


def near0(d, eps):
    """all coefficients negligible: decimal constants stand for their nearest double"""
    return all(abs(k) <= eps for k in d.t.values())


# ---- quads --------------------------------------------------------------------
def chk_quad(c, prog, kind, L, tag, via):
    w = loc(prog, kind, 'quad' if via else 'pixel')
    F = FACES[kind]
    key = '%s.%s:%s' % (KIND[kind], 'quad' if via else 'pixel', tag)

    def lut(m, obj, idx, size):
        m.nlut = getattr(m, 'nlut', 0) + 1
        return BitVal(('lut', m.nlut, i) for i in range(8))
    # the curve is C13's business: grid coordinates are unknown integers
    s, t = sym('s', 0, max(2 ** L - 1, 0)), sym('t', 0, max(2 ** L - 1, 0))
    if L == 0:
        s, t = 0, 0
    inv = {}

    def scalar(m, a):
        # tuple<uint32, uint32> returned through memory, last element first
        m.store(a[0], t, ['i', 32], 4)
        m.store(Ptr(a[0].obj, a[0].off + 4), s, ['i', 32], 4)
        checkarg(m, a[1:])
        return None

    def simd(m, a):
        checkarg(m, a)
        return Vec([s, t])

    def checkarg(m, a):
        b = tobits(a[0], 64)
        if kind == 2 and a[1] != L:
            raise Alarm('order', 'the curve order is %s at level %d' % (a[1], L))
        if any(b[i] != ('i', i) for i in range(2 * L)) or (kind == 1 and any(b[2 * L:])):
            raise Alarm('order', 'the grid coordinates are computed from %s' % (a[0],))
        m.seen = True
    nm = 'mortonIndexInverse' if kind == 1 else 'hilbertIndexInverse'
    for n in symbols(prog, r'sphgeom::%s\(' % nm):
        inv[n] = scalar
    for n in symbols(prog, r'sphgeom::%sSimd\(' % nm):
        inv[n] = simd
    for face, (W, U, V) in F.items():
        idx = frombits(tuple([('i', j) for j in range(2 * L)] + [(face >> j) & 1 for j in range(4)]))

        def go(m):
            o, n = outbuf(m, 12), outbuf(m, 1)
            rc = m.call('h_pixel', [kind, L, idx, via, o, n])
            return rc, o, n
        for r in runs(c, prog, go, key, w, {'bitlazy': True, 'bitpoly': True, 'align': True, 'poly': True}, stubs=inv):
            m = r.m
            rc, o, n = r.value
            if not c.expect(rc == 0 and geti(m, n, 0) == 4, 'quad', key, w, lambda: 'level %d face %d: status %s, %s corners' % (L, face, rc, geti(m, n, 0) if rc == 0 else 'no')):
                continue
            vs = [[getd(m, o, 3 * k + j) for j in range(3)] for k in range(4)]
            fs = Fraction(2) ** (1 - L)
            cor = []
            for k in range(4):
                q = P(vs[k][W[0]]).scale(W[1])
                cor.append((P(vs[k][U[0]]).scale(U[1]), P(vs[k][V[0]]).scale(V[1]), q))
            # corners are q (1, u, v): find (u, v) as the factor of q
            det = orient(W, U, V)
            order = [(0, 0), (1, 0), (1, 1), (0, 1)]
            if det < 0:
                order = [(0, 0), (0, 1), (1, 1), (1, 0)]
            found = []
            for k in range(4):
                cu, cv, q = cor[k]
                hit = []
                for (du, dv) in order:
                    ok = True
                    for cc, x, dx in ((cu, s, du), (cv, t, dv)):
                        tgt = P(x).add(P(dx)).scale(fs).add(P(-1))
                        if not corner_matches(m, kind, cc, q, tgt, 1 if dx else -1):
                            ok = False
                    if ok:
                        hit.append((du, dv))
                found.append(hit[0] if len(hit) == 1 else hit)
            rot = [order[j:] + order[:j] for j in range(4)]
            c.expect(found in rot, 'quad', key, w, lambda: 'level %d face %d: the corners are %s, which are not the dilated corners %s of grid cell (s,t), counter-clockwise (recognised: %s)' % (
                L, face, cor, order, found))
            c.expect(all(m.signs(cr[2]) <= {0, 1} and cr[2].t for cr in cor), 'quad', key + ':side', w, lambda: 'level %d face %d: corners not on the face' % (L, face))


DIL = (Fraction(1, 10 ** 16), Fraction(1, 10 ** 13))


def corner_matches(m, kind, cc, q, tgt, sgn):
    """cc / q must be tgt pushed outwards by a tiny amount (Q3C), or the inverse of f at that value"""
    if cc.is_const() and q.is_const() and P(tgt).is_const():
        x = cc.cval() / q.cval()
        y = x if kind == 1 else (4 * abs(x) - x * x) / 3 * (1 if x >= 0 else -1)
        return -Fraction(1, 10 ** 15) <= (y - P(tgt).cval()) * sgn <= DIL[1]
    if kind == 1:
        # cc = q * (tgt + d)
        a = single_factor(q)
        if a is None:
            return False
        d = divide(cc, q)
        if d is None:
            return False
        d = d.add(tgt, -1)
        if any(k for k in d.t if k):
            return False
        v = d.cval() * sgn
        return DIL[0] <= v <= DIL[1]
    d = divide(cc, q)
    if d is None:
        return False
    # |d| = 2 - sqrt(4 - 3 |y|), so y = sign * (4 |d| - |d|^2) / 3 with sqrt^2 replaced
    at = [a for a in d.atoms() if a.kind == 'sqrt']
    if len(at) != 1:
        if d.is_const() and tgt.is_const():
            x = abs(d.cval())
            y = (4 * x - x * x) / 3 * (1 if d.cval() >= 0 else -1)
            v = (y - tgt.cval()) * sgn
            return -Fraction(1, 10 ** 15) <= v <= DIL[1]
        return False
    a = at[0]
    rad = P(a.args[0])
    for sg in (1, -1):
        x = d.scale(sg)
        if x.add(P(-2)).add(Poly.of(a)).t:
            continue
        y = P(4).add(rad, -1).scale(Fraction(1, 3))     # (4 x - x^2)/3 with x = 2 - r, r^2 = rad
        y = y.scale(sg)
        dd = y.add(tgt, -1)
        if any(k for k in dd.t if k):
            return False
        v = dd.cval() * sgn
        # the sign used must be that of the value
        if not (m.signs(y.scale(sg)) <= {0, 1}):
            return False
        return DIL[0] <= v <= DIL[1]
    return False


def single_factor(q):
    return q.single_atom() if hasattr(q, 'single_atom') else None


def divide(p, q):
    """p / q when q is a single monomial dividing p"""
    p, q = P(p), P(q)
    if q.is_const():
        return p.scale(1 / q.cval()) if q.cval() else None
    if len(q.t) != 1:
        # p = k * q ?
        (mm, k) = next(iter(q.t.items()))
        if mm in p.t:
            r = p.t[mm] / k
            if not p.add(q.scale(-r)).t:
                return P(r)
        return None
    (qm, qc), = q.t.items()
    out = {}
    for mm, k in p.t.items():
        d = dict(mm)
        for a, e in qm:
            if d.get(a, 0) < e:
                return None
            d[a] -= e
        out[tuple((a, e) for a, e in mm if d[a]) if False else tuple((a, d[a]) for a, e in mm if d[a])] = k / qc
    return Poly(out)


def orient(W, U, V):
    e = lambda a: [a[1] if i == a[0] else 0 for i in range(3)]
    w, u, v = e(W), e(U), e(V)
    cr = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    return sum(a * b for a, b in zip(cr, w))


# ---- neighbourhoods -------------------------------------------------------------
def chk_nbr(c, prog, kind, L, tag):
    w = loc(prog, kind, 'neighborhood')
    F = FACES[kind]
    key = '%s.neighborhood:%s' % (KIND[kind], tag)
    M = 2 ** L - 1
    s0, t0 = (sym('s', 0, M, isint=True), sym('t', 0, M, isint=True)) if L else (0, 0)

    def inverse(m, a):
        m.store(a[0], t0, ['i', 32], 4)
        m.store(Ptr(a[0].obj, a[0].off + 4), s0, ['i', 32], 4)
        b = tobits(a[1], 64)
        if any(b[i] != ('i', i) for i in range(2 * L)) or (kind == 1 and any(b[2 * L:])) or (kind == 2 and a[2] != L):
            raise Alarm('order', 'grid coordinates from %s' % (a[1:],))
        return None

    def inverseV(m, a):
        raise Unsupported('vector neighbourhood')

    def index(m, a):
        if isinstance(a[0], Vec):
            st, extra = list(a[0]), a[1:]
        else:
            st, extra = a[:2], a[2:]
        if extra and extra[0] != L:
            raise Alarm('order', 'the curve order is %s at level %d' % (extra[0], L))
        st = [m.canon_u(x, 32) if isinstance(x, Poly) else x for x in st]
        for x in st:
            if not (m.signs(P(x)) <= {0, 1} and m.signs(P(x).add(P(-M))) <= {-1, 0}):
                raise Alarm('range', 'grid coordinate %s out of [0, %d]' % (x, M))
        k = tuple(P(x) for x in st)
        for j, (kk, _) in enumerate(m.pts):
            if all(not P(x).add(y, -1).t or m.signs(P(x).add(y, -1)) == {0} for x, y in zip(k, kk)):
                return j
        m.pts.append((k, None))
        if len(m.pts) > 4 ** L:
            raise Alarm('range', 'more grid cells than exist')
        return len(m.pts) - 1
    stubs = {}
    a, b = ('mortonIndex', 'mortonIndexInverse') if kind == 1 else ('hilbertIndex', 'hilbertIndexInverse')
    for n in symbols(prog, r'sphgeom::%s\(' % a):
        stubs[n] = index
    for n in symbols(prog, r'sphgeom::%s\(' % b):
        stubs[n] = inverse
    for n in symbols(prog, r'sphgeom::%sSimd\(' % b):
        stubs[n] = inverseV
    for face in F:
        idx = frombits(tuple([('i', j) for j in range(2 * L)] + [(face >> j) & 1 for j in range(4)]))

        def go2(m):
            m.pts = [((P(s0), P(t0)), None)]
            o, n = outbuf(m, 16), outbuf(m, 1)
            if L:
                for x in (s0, t0):
                    m.sign_of(P(x))
                    m.sign_of(P(x).add(P(-M)))
            return m.call('h_nbr', [kind, L, face << 2 * L, o, n]), o, n

        def inverse2(m, a):
            m.store(a[0], t0, ['i', 32], 4)
            m.store(Ptr(a[0].obj, a[0].off + 4), s0, ['i', 32], 4)
            if not (isinstance(a[1], int) and a[1] & (4 ** L - 1) == 0 and (kind == 2 or a[1] >> 2 * L == 0)) or (kind == 2 and a[2] != L):
                raise Alarm('order', 'grid coordinates from %s' % (a[1:],))
            return None
        st2 = dict(stubs)
        for n in symbols(prog, r'sphgeom::%s\(' % b):
            st2[n] = inverse2
        for r in runs(c, prog, go2, key, w, {'poly': True, 'maxsteps': 200000}, stubs=st2):
            m = r.m
            rc, o, n = r.value
            cnt = geti(m, n, 0) if rc == 0 else None
            # corner class of (s,t) on this path
            end = lambda x: 'both' if L == 0 else 'end' if (m.signs(P(x)) == {0} or m.signs(P(x).add(P(-M))) == {0}) else 'mid'
            es, et = end(s0), end(t0)
            k = 4 if L == 0 else 1 if es == et == 'end' else 0
            desc = lambda: 'level %d face %d (s,t) %s, %s' % (L, face, [sorted(m.signs(P(s0))), sorted(m.signs(P(s0).add(P(-M))))], [sorted(m.signs(P(t0))), sorted(m.signs(P(t0).add(P(-M))))])
            if not c.expect(cnt == 9 - k, 'neighbours', key, w, lambda: '%s: %s pixels returned, not %d' % (desc(), cnt, 9 - k)):
                continue
            got = [geti(m, o, j) for j in range(cnt)]
            mine = corners(F[face], P(s0), P(t0), L)
            c.expect(len(set(got)) == cnt and face << 2 * L in got and got == sorted(got), 'neighbours', key, w, lambda: '%s: %s' % (desc(), got))
            for g in got:
                f, j = g >> 2 * L, g & (4 ** L - 1)
                if not c.expect(f in F and j < len(m.pts), 'neighbours', key, w, lambda: '%s: invalid index %d' % (desc(), g)):
                    continue
                cs = m.pts[j][0]
                other = corners(F[f], cs[0], cs[1], L)
                share = any(all(not x.add(y, -1).t or m.signs(x.add(y, -1)) == {0} for x, y in zip(a1, b1)) for a1 in mine for b1 in other)
                c.expect(share, 'neighbours', key, w, lambda: '%s: cell (%s,%s) of face %d is not adjacent' % (desc(), cs[0], cs[1], f))


def corners(face, s, t, L):
    """the corners of a cell on the surface of the cube [-2^L, 2^L]^3, grid lines at even spacing"""
    W, U, V = face
    N = 2 ** L
    out = []
    for ds in (0, 1):
        for dt in (0, 1):
            p = [None] * 3
            p[W[0]] = P(N * W[1])
            p[U[0]] = s.add(P(ds)).scale(2).add(P(-N)).scale(U[1])
            p[V[0]] = t.add(P(dt)).scale(2).add(P(-N)).scale(V[1])
            out.append(p)
    return out


# ---- HTM ------------------------------------------------------------------------
AX = [(0, 1), (1, 1), (2, 1), (0, -1), (1, -1), (2, -1)]


def htm_stubs(prog, m_attr='mids'):
    """midpoints are opaque unit vectors named by the pair of end points, orientation is an unknown sign"""
    def vec(m, p):
        return tuple(P(m.load(Ptr(p.obj, p.off + 8 * j), ['d'], 8)) for j in range(3))

    def ctor(m, a):
        v = vec(m, a[1])
        k = ('mid', v)
        for j in range(3):
            m.store(Ptr(a[0].obj, a[0].off + 8 * j), Poly.of(atomv(k, j)), ['d'], 8)
        return None

    def orientation(m, a):
        v = [vec(m, x) for x in a]
        return orient_of(m, *v)
    return {r'UnitVector3d::UnitVector3d\(lsst::sphgeom::Vector3d const&\)': ctor, r'sphgeom::orientation\(': orientation}


def atomv(k, j):
    from dom import atom
    return atom('mid', (k[1], j), -1, 1)


def orient_of(m, a, b, c):
    """sign of a.(b x c), antisymmetric and cyclic"""
    v = [a, b, c]
    ks = [repr(x) for x in v]
    if len(set(ks)) < 3:
        return 0
    o = sorted(range(3), key=lambda i: ks[i])
    sg = 1 if o in ([0, 1, 2], [1, 2, 0], [2, 0, 1]) else -1
    key = ('orient', tuple(ks[i] for i in o))
    if key not in m.bounds:
        m.bounds[key] = m.choose(3, lambda: 'orientation%s' % (key[1],)) - 1
    r = m.bounds[key] * sg
    return r & 0xffffffff


def get_orient(m, a, b, c):
    v = [a, b, c]
    ks = [repr(x) for x in v]
    o = sorted(range(3), key=lambda i: ks[i])
    sg = 1 if o in ([0, 1, 2], [1, 2, 0], [2, 0, 1]) else -1
    r = m.bounds.get(('orient', tuple(ks[i] for i in o)))
    return None if r is None else r * sg


def triangles(c, prog, L):
    """corners of every trixel of level L as built by triangle()"""
    out = {}
    stubs = stub_map(prog, {k: v for k, v in htm_stubs(prog).items() if 'orientation' not in k})
    for i in range(8 << 2 * L, 16 << 2 * L):
        def go(m):
            o, n = outbuf(m, 24), outbuf(m, 1)
            rc = m.call('h_pixel', [0, L, i, 1, o, n])
            return rc, geti(m, n, 0), [tuple(P(getd(m, o, 3 * k + j)) for j in range(3)) for k in range(3)]
        rs = runs(c, prog, go, 'triangle', loc(prog, 0, 'triangle'), {}, stubs=stubs)
        if len(rs) == 1 and rs[0].value[:2] == (0, 3):
            out[i] = rs[0].value[2]
        else:
            c.fail('triangle', 'HtmPixelization.triangle', loc(prog, 0, 'triangle'), 'triangle(%d) is not a triangle' % i)
    return out


def vsum(a, b):
    return tuple(x.add(y) for x, y in zip(a, b))


def mid(a, b):
    k = ('mid', vsum(a, b))
    return tuple(Poly.of(atomv(k, j)) for j in range(3))


def det(v, a, b):
    cr = [a[1].mul(b[2]).add(a[2].mul(b[1]), -1), a[2].mul(b[0]).add(a[0].mul(b[2]), -1), a[0].mul(b[1]).add(a[1].mul(b[0]), -1)]
    r = P(0)
    for x, y in zip(v, cr):
        r = r.add(x.mul(y))
    return r


def chk_htm(c, prog, L):
    w = loc(prog, 0, 'index')
    tri = triangles(c, prog, L)
    roots = tri if L == 0 else triangles(c, prog, 0)
    if L == 0:
        one = [tuple(P(s if j == a else 0) for j in range(3)) for a, s in AX]
        for i, t in tri.items():
            wt = loc(prog, 0, 'triangle')
            ok = all(v in one for v in t) and det(*t).is_const() and det(*t).cval() == 1
            c.expect(ok, 'root', 'HtmPixelization.triangle', wt, lambda: 'root triangle %d: %s is not an octant with counter-clockwise corners' % (i, t))
            z = [v[2].cval() for v in t]
            c.expect((-1 in z) == (i < 12) and (1 in z) == (i >= 12), 'root', 'HtmPixelization.triangle', wt, lambda: 'root triangle %d in the wrong hemisphere' % i)
        c.expect(len({frozenset(t) for t in tri.values()}) == 8, 'root', 'HtmPixelization.triangle', loc(prog, 0, 'triangle'), 'root triangles coincide')
    else:
        par = triangles(c, prog, L - 1)
        wt = loc(prog, 0, 'triangle')
        for i, t in par.items():
            m12, m20, m01 = mid(t[1], t[2]), mid(t[2], t[0]), mid(t[0], t[1])
            ch = [(t[0], m01, m20), (t[1], m12, m01), (t[2], m20, m12), (m12, m20, m01)]
            for j in range(4):
                got = tri.get(4 * i + j)
                want = ch[j]
                c.expect(got is not None and tuple(got) in (want, want[1:] + want[:1], want[2:] + want[:2]), 'child', 'HtmPixelization.triangle', wt,
                         lambda: 'triangle(%d) is not child %d of triangle(%d)' % (4 * i + j, j, i))
    # index: the triangle contains the point
    st = stub_map(prog, htm_stubs(prog))

    def go(m):
        p = [sym(x, -1, 1) for x in 'xyz']
        b = outbuf(m, 3)
        for j in range(3):
            m.store(Ptr(b.obj, 8 * j), p[j], ['d'], 8)
        r = m.call('h_index', [0, L, b])
        return r, tuple(P(x) for x in p)
    seen = set()
    for r in runs(c, prog, go, 'index', w, {}, stubs=st, maxpaths=200000):
        i, v = r.value
        if not c.expect(isinstance(i, int) and i in tri, 'htm-index', 'HtmPixelization.index', w, lambda: 'index() is %s at level %d' % (i, L)):
            continue
        seen.add(i)
        root = roots[i >> 2 * L]
        ok = all(r.m.signs(det(v, root[a], root[(a + 1) % 3])) <= {0, 1} for a in range(3))
        c.expect(ok, 'htm-index', 'HtmPixelization.index:root', w, lambda: 'index() chooses root triangle %d for x,y,z of signs %s' % (
            i >> 2 * L, [sorted(r.m.signs(x)) for x in v]))
        t = root
        for l in range(L - 1, -1, -1):
            j = (i >> 2 * l) & 3
            m12, m20, m01 = mid(t[1], t[2]), mid(t[2], t[0]), mid(t[0], t[1])
            if j == 3:
                edges = [(m12, m20), (m20, m01), (m01, m12)]
            else:
                edges = [[(m01, m20)], [(m12, m01)], [(m20, m12)]][j]
            for a, b in edges:
                o = get_orient(r.m, v, a, b)
                c.expect(o is not None and o >= 0, 'htm-index', 'HtmPixelization.index:child', w,
                         lambda: 'level %d: index() descends to child %d without having found the point on its side of the inner edge (orientation %s)' % (L - l, j, o))
            t = [(t[0], m01, m20), (t[1], m12, m01), (t[2], m20, m12), (m12, m20, m01)][j]
    c.expect(seen == set(tri), 'htm-index', 'HtmPixelization.index:onto', w, lambda: 'indexes never returned at level %d: %s' % (L, sorted(set(tri) - seen)[:8]))


def run(chk):
    P2 = {t: Program(build.build_ir(HARNESS, 'pixelization_' + t, defs=d)) for t, d in (('simd', ()), ('scalar', ('NO_SIMD',)))}
    deep = chk.tier == 'thorough'
    items = [('level',), ('ctor',), ('universe',)]
    some = [0, 1, 2, 3, 12, 24] if not deep else range(25)
    for kind in range(3):
        ls = [l for l in range(MAXL[kind] + 1)] if deep else [0, 1, 2, 7, 12, MAXL[kind]]
        items += [('names', kind, l) for l in ls] + [('valid', kind, l) for l in ls]
    for kind in (1, 2):
        for t in P2:
            ls = range(31) if deep else [0, 1, 2, 3, 15, 29, 30]
            items += [('index', kind, l, t) for l in ls]
            items += [('quad', kind, l, t, via) for l in ls for via in (0, 1)]
            items += [('nbr', kind, l, t) for l in ls]
    items += [('htm', l) for l in ((0, 1, 2) if deep else (0, 1))]

    def one(c, it):
        prog = P2[it[3]] if len(it) > 3 else P2['simd']
        k = it[0]
        if k == 'level':
            chk_level(c, prog)
        elif k == 'ctor':
            chk_ctor(c, prog)
        elif k == 'universe':
            chk_universe(c, prog)
        elif k == 'names':
            chk_names(c, prog, it[1], it[2])
        elif k == 'valid':
            chk_valid(c, prog, it[1], it[2])
        elif k == 'index':
            chk_index(c, prog, it[1], it[2], it[3])
        elif k == 'quad':
            chk_quad(c, prog, it[1], it[2], it[3], it[4])
        elif k == 'nbr':
            chk_nbr(c, prog, it[1], it[2], it[3])
        elif k == 'htm':
            chk_htm(c, prog, it[1])
    import os
    if os.environ.get('C14'):
        items = [i for i in items if i[0] in os.environ['C14'].split(',')]
    parallel(chk, items, one)
    if not os.environ.get("C14"):
        for rule, n in (("child", 32), ("constructor", 12), ("face", 15000), ("grid", 25000), ("htm-index", 200), ("invalid-index", 2000), ("level", 500), ("name", 500), ("neighbours", 15000), ("quad", 3000), ("universe", 80)):
            chk.need(rule, n // 4)
