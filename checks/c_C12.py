"""C12: BigInteger is exact integer arithmetic."""
from common import *
from framework import parallel

EXPLANATION = (
    'Abstract interpretation of the IR of every BigInteger operation with symbolic 32 bit digits. Truncations and shifts are kept as '
    'exact quotient/remainder atoms (x = 2^k*quo + low), so the value of the result digits is a polynomial that must equal the exact sum, '
    'difference, product or shift of the operand values identically, for all digit values on the path. Leading digits must be non-zero, '
    'infeasible branches are discharged by exact linear reasoning over the quotient/remainder equations, and every access must stay within '
    'the capacity given. All digit counts and signs up to the stated bound, all aliasings and all capacities are enumerated.')
ASSUMPTIONS = ['digit counts above the bound behave like those within it (the loops are uniform in the count)']
B = 1 << 32

HARNESS = r'''
#include <cstring>
#include <stdexcept>
#include <cstdint>
#include <new>
#define private public
#include "lsst/sphgeom/BigInteger.h"
#undef private
using namespace lsst::sphgeom;
static void st(BigInteger &b, unsigned size, int sign) { b._size = size; b._sign = sign; }
static void put(BigInteger const &b, std::int64_t *o) { o[0] = b.getSign(); o[1] = b.getSize(); o[2] = b.getCapacity(); }
extern "C" int h_bin(std::uint32_t *dx, unsigned cx, unsigned nx, int sx, std::uint32_t *dy, unsigned cy, unsigned ny, int sy, int op, std::int64_t *o) {
  BigInteger x(dx, cx), y(dy, cy); st(x, nx, sx); st(y, ny, sy); int thrown = 0; BigInteger *r = &x;
  try {
    switch (op) {
      case 0: r = &x.add(y); break;
      case 1: r = &x.subtract(y); break;
      case 2: r = &x.multiply(y); break;
      case 3: r = &x.add(x); break;
      case 4: r = &x.subtract(x); break;
      case 5: r = &x.multiply(x); break;
      case 6: r = &(x = y); break;
      case 7: r = &(x = *r); break;
      case 8: x.negate(); break;
      case 9: x.setToZero(); break;
    }
  } catch (std::runtime_error const &) { thrown = 1; }
  put(x, o); put(y, o + 3); o[6] = (r == &x); o[7] = x.getDigits() == dx; return thrown; }
extern "C" int h_pow(std::uint32_t *dx, unsigned cx, unsigned nx, int sx, unsigned n, std::int64_t *o) {
  BigInteger x(dx, cx); st(x, nx, sx); int thrown = 0;
  try { x.multiplyPow2(n); } catch (std::runtime_error const &) { thrown = 1; }
  put(x, o); return thrown; }
extern "C" int h_set(std::uint32_t *dx, unsigned cx, std::uint64_t v, int op, std::int64_t *o) {
  BigInteger x(dx, cx); int thrown = 0;
  try { if (op == 0) x.setTo(v); else x.setTo(static_cast<std::int64_t>(v)); } catch (std::runtime_error const &) { thrown = 1; }
  put(x, o); return thrown; }
extern "C" void h_new(std::uint32_t *dx, unsigned cx, std::int64_t *o) { BigInteger x(dx, cx); put(x, o); }
'''
OPTS = {'lowexact': True, 'poly': True}
OPN = ['add', 'subtract', 'multiply', 'add(self)', 'subtract(self)', 'multiply(self)', 'operator=', 'operator=(self)', 'negate', 'setToZero']
FN = ['add', 'subtract', 'multiply', 'add', 'subtract', 'multiply', 'operator=', 'operator=', 'negate', 'setToZero']


def digits(name, n):
    return [sym('%s%d' % (name, i), 1 if i == n - 1 else 0, B - 1, isint=True) for i in range(n)]


def mag(ds):
    r = P(0)
    for i, d in enumerate(ds):
        r = r.add(P(d).scale(B ** i))
    return r


def buf32(m, ds, cap):
    o = Obj('digits', 4 * cap, 'heap', align=4)
    p = Ptr(o, 0)
    for i, d in enumerate(ds):
        m.store(Ptr(o, 4 * i), d, ['i', 32], 4)
    return p


def read(m, p, cap):
    out = []
    for i in range(cap):
        c = p.obj.cells.get(4 * i)
        v = c[1] if c else UNDEF
        if isinstance(v, Poly):
            v = m.canon_u(v, 32)
        out.append(v)
    return out


def expand(m, p):
    """replace remainders by dividend - 2^k * quotient, fixed quotients by their value, equal atoms by one of them"""
    for _ in range(200):
        hit = None
        for a in sorted(p.atoms(), key=lambda z: -z.id):
            if a.kind == 'low':
                r, k = a.args
                q = m.quo(r, k)
                hit = (a, r.add(P(q).scale(-(1 << k))))
                break
            if a.kind == 'quo':
                r, k = a.args
                lo, hi = m.arng(a)
                s = m.signs(Poly.of(a))
                if len(s) == 1 and s == {0}:
                    hit = (a, P(0))
                    break
                if lo == hi:
                    hit = (a, P(lo))
                    break
        if hit is None:
            return p
        p = subst(p, *hit)
    return p


def subst(p, a, q):
    out = P(0)
    for mm, c in p.t.items():
        t = Poly({tuple(x for x in mm if x[0] is not a): c})
        for x, e in mm:
            if x is a:
                for _ in range(e):
                    t = t.mul(q)
        out = out.add(t)
    return out


def is_zero(m, p):
    p = expand(m, p)
    if not p.t:
        return True
    # use the equalities found on the path
    for key, s in list(m.facts.items()):
        if s == {0}:
            k = expand(m, key)
            lin = [(mm[0][0], c) for mm, c in k.t.items() if len(mm) == 1 and mm[0][1] == 1]
            if lin and len(lin) == len([1 for mm in k.t if mm]):
                a, c = max(lin, key=lambda z: z[0].id)
                q = k.add(Poly.of(a).scale(c), -1).scale(-1 / c)
                p = expand(m, subst(p, a, q))
                if not p.t:
                    return True
    return m.signs(p) == {0}


def run(chk):
    prog = Program(build.build_ir(HARNESS, 'C12', passes='inline'))

    def L(op):
        return loc_of(prog, r'sphgeom::BigInteger::%s\(' % op)
    N = 5 if chk.thorough else 4
    items = []
    for nx in range(N):
        for ny in range(N):
            for sx in ((1, -1) if nx else (0,)):
                for sy in ((1, -1) if ny else (0,)):
                    for op in (0, 1, 2, 6):
                        if op == 2 and (nx > 3 or ny > 3) and not chk.thorough and nx * ny > 6:
                            continue
                        if op == 2 and nx * ny > 9:
                            continue
                        items.append(('bin', nx, sx, ny, sy, op))
    items += [('bin', 2, s, 4, t, 2) for s in (1, -1) for t in (1, -1)] + [('bin', 4, s, 2, 1, 2) for s in (1, -1)] + [('bin', 1, s, 5, 1, op) for s in (1, -1) for op in (0, 1, 2)] + [
        ('bin', 5, s, 1, 1, op) for s in (1, -1) for op in (0, 1, 2)]
    for nx in range(N):
        for sx in ((1, -1) if nx else (0,)):
            for op in (3, 4, 5, 7, 8, 9):
                if op == 5 and nx > 3:
                    continue
                items.append(('bin', nx, sx, 0, 0, op))
            for n in (range(0, 131) if chk.thorough else (0, 1, 2, 5, 16, 31, 32, 33, 37, 48, 63, 64, 65, 69, 95, 96, 97, 127, 128, 129)):
                items.append(('pow', nx, sx, n))
    items += [('set', 0), ('set', 1), ('new',)]

    def signs_name(s):
        return {1: '+', -1: '-', 0: '0'}[s]

    def runs(c, go, key, where, what):
        cov = set()
        try:
            res = list(explore(prog, go, opts=dict(OPTS, cov=cov)))
        except Exception:
            raise
        c.partitions += len(res)
        src_of(prog, c, cov)
        for r in res:
            if r.alarm is not None:
                c.fail('stays-in-bounds', key + ':fault', (getattr(r, 'where', None) or [where])[0], '%s: %s: %s' % (what, r.alarm, r.path(8)))
            elif r.exc is not None:
                c.fail('only-runtime_error', key + ':exception', where, '%s: %s' % (what, r.exc))
            else:
                c.ok('stays-in-bounds')
                yield r

    def judge(c, r, o, ds, want, key, where, what):
        """o: sign, size, capacity; ds: digit buffer; want: exact signed value"""
        m = r.m
        sign, size = sgn64(m, o[0]), o[1]
        if not isinstance(sign, int) or not isinstance(size, int):
            c.fail('exact-value', key, where, '%s: sign %s size %s' % (what, sign, size))
            return
        if size > len(ds) or any(d is UNDEF for d in ds[:size]):
            c.fail('exact-value', key, where, '%s: %d digits of which some were never written' % (what, size))
            return
        got = mag(ds[:size])
        c.expect((sign == 0) == (size == 0) and sign in (-1, 0, 1), 'sign-matches-size', key + ':sign', where, lambda: '%s: sign %d size %d' % (what, sign, size))
        ok = is_zero(m, got.scale(sign).add(want, -1))
        if not ok:
            # digits above the size that are known to vanish
            z = P(0)
            for j in range(size, len(ds)):
                if isinstance(ds[j], (int, Poly)) and m.signs(P(ds[j])) == {0}:
                    z = z.add(P(ds[j]).scale(B ** j))
            ok = is_zero(m, got.add(z).scale(sign).add(want, -1))
        c.expect(ok, 'exact-value', key, where, lambda: '%s: differs from the exact value by %s: %s' % (what, expand(m, got.scale(sign).add(want, -1)).show()[:160], r.path(6)))
        if size:
            norm = m.signs(P(ds[size - 1])) == {1} or (ok and m.rng(want.scale(sign))[0] >= B ** (size - 1)) or (
                ok and m.signs(want.scale(sign).add(P(B ** (size - 1)), -1)) <= {0, 1})
            c.expect(norm, 'no-leading-zero', key + ':norm', where, lambda: '%s: the leading digit %s of %d may be zero: %s' % (what, ds[size - 1], size, r.path(6)))

    def sgn64(m, v):
        return (v - (1 << 64) if v >> 63 else v) if isinstance(v, int) else v

    def one(c, it):
        if it[0] == 'bin':
            _, nx, sx, ny, sy, op = it
            xs, ys = digits('x', nx), digits('y', ny)
            X, Y = mag(xs).scale(sx), mag(ys).scale(sy)
            want = [X.add(Y), X.add(Y, -1), X.mul(Y), X.scale(2), P(0), X.mul(X), Y, X, X.neg(), P(0)][op]
            need = [max(nx, ny) + 1 if nx and ny else max(nx, ny), 0, nx + ny if nx and ny else 0, nx + 1 if nx else 0, 0, 2 * nx, ny, 0, 0, 0][op]
            if op == 1:
                need = max(nx, ny) + 1 if nx and ny else max(nx, ny)
            for cap in range(nx, max(need, nx) + 1):
                def go(m):
                    dx, dy = buf32(m, xs, cap), buf32(m, ys, ny)
                    o = outbuf(m, 8)
                    t = m.call('h_bin', [dx, cap, nx, sx & 0xffffffff, dy, ny, ny, sy & 0xffffffff, op, o])
                    return t, [geti(m, o, i) for i in range(8)], read(m, dx, cap), read(m, dy, ny)
                key = 'BigInteger:' + OPN[op]
                what = '%s of %s%d and %s%d digits, capacity %d' % (OPN[op], signs_name(sx), nx, signs_name(sy), ny, cap)
                for r in runs(c, go, key, L(FN[op]), what):
                    t, o, dx, dy = r.value
                    m = r.m
                    c.expect(o[7] == 1 and o[2] == cap, 'storage-unchanged', key + ':storage', L(FN[op]), what)
                    c.expect(len(dy) == ny and all(is_zero(m, P(a).add(b, -1)) for a, b in zip(dy, ys)) and sgn64(m, o[3]) == sy and o[4] == ny, 'operand-unchanged',
                             key + ':operand', L(FN[op]), what)
                    if t:
                        c.expect(cap < need, 'throws-only-when-full', key + ':throw', L(FN[op]), lambda: '%s throws; %d digits suffice' % (what, need))
                        continue
                    c.expect(o[6] == 1, 'returns-self', key + ':self', L(FN[op]), what)
                    judge(c, r, o, dx, want, key, L(FN[op]), what)
        elif it[0] == 'pow':
            _, nx, sx, n = it
            xs = digits('x', nx)
            want = mag(xs).scale(sx).scale(1 << n)
            need = nx + (n >> 5) + 1 if nx and n else nx
            for cap in sorted({nx, max(nx, need - 1), need}):
                def go(m):
                    dx = buf32(m, xs, cap)
                    o = outbuf(m, 3)
                    t = m.call('h_pow', [dx, cap, nx, sx & 0xffffffff, n, o])
                    return t, [geti(m, o, i) for i in range(3)], read(m, dx, cap)
                key = 'BigInteger:multiplyPow2'
                what = 'multiplyPow2(%d) of %s%d digits, capacity %d' % (n, signs_name(sx), nx, cap)
                for r in runs(c, go, key, L('multiplyPow2'), what):
                    t, o, dx = r.value
                    if t:
                        c.expect(cap < need, 'throws-only-when-full', key + ':throw', L('multiplyPow2'), what)
                        continue
                    judge(c, r, o, dx, want, key, L('multiplyPow2'), what)
        elif it[0] == 'set':
            for cap in (0, 1, 2, 3):
                for lo, hi in ((0, 0), (1, B - 1), (B, (1 << 63) - 1), (1 << 63, (1 << 64) - 1), ((1 << 63), 1 << 63), ((1 << 64) - (1 << 32) + 1, (1 << 64) - 1)):
                    v = sym('v', lo, hi, isint=True) if lo != hi else P(lo)
                    want = v if it[1] == 0 or hi < 1 << 63 else v.add(P(1 << 64), -1)

                    def go(m):
                        dx = buf32(m, [], cap)
                        o = outbuf(m, 3)
                        t = m.call('h_set', [dx, cap, v if lo != hi else lo, it[1], o])
                        return t, [geti(m, o, i) for i in range(3)], read(m, dx, cap)
                    key = 'BigInteger:setTo'
                    what = 'setTo(%s in [%d, %d]), capacity %d' % (['uint64', 'int64'][it[1]], lo, hi, cap)
                    for r in runs(c, go, key, L('setTo'), what):
                        t, o, dx = r.value
                        if t:
                            c.expect(cap < 2, 'throws-only-when-full', key + ':throw', L('setTo'), what)
                            continue
                        judge(c, r, o, dx, want, key, L('setTo'), what)
        else:
            def go(m):
                o = outbuf(m, 3)
                m.call('h_new', [buf32(m, [], 2), 2, o])
                return [geti(m, o, i) for i in range(3)]
            for r in runs(c, go, 'BigInteger:ctor', L('BigInteger'), 'constructor'):
                c.expect(r.value == [0, 0, 2], 'sign-matches-size', 'BigInteger:ctor', L('BigInteger'), repr(r.value))
    parallel(chk, items, one)
    chk.info['max_digits'] = N
