"""Shared model of RangeSet operands: toggle lists over ranked interior points."""
from common import *
from fractions import Fraction
import absint

TOP = 1 << 64


def merges(k, l):
    """all ways to interleave two strictly increasing chains of length k and l,
    ties allowed between the chains; yields (ranksA, ranksB), ranks 1..n"""
    def rec(i, j, n, a, b):
        if i == k and j == l:
            yield tuple(a), tuple(b)
            return
        if i < k:
            yield from rec(i + 1, j, n + 1, a + [n + 1], b)
        if j < l:
            yield from rec(i, j + 1, n + 1, a, b + [n + 1])
        if i < k and j < l:
            yield from rec(i + 1, j + 1, n + 1, a + [n + 1], b + [n + 1])
    yield from rec(0, 0, 0, [], [])


def atomv(r, n):
    """interior point of rank r among n distinct interior points of [1, 2^64)"""
    return sym('p%d' % r, r, TOP - 1 - (n - r), rank=Fraction(r), isint=True)


def toggles(start, ranks, n):
    """endpoint list (values, keys) of the set"""
    v = ([0] if start else []) + [atomv(r, n) for r in ranks]
    k = ([Fraction(0)] if start else []) + [Fraction(r) for r in ranks]
    if len(v) % 2:
        v.append(0)
        k.append(Fraction(n + 1))
    return v, k


def cells_of(keys, pts):
    """set of cells (named by their lower point) covered by the ranges"""
    s = set()
    for i in range(0, len(keys), 2):
        s |= {p for p in pts if keys[i] <= p < keys[i + 1]}
    return frozenset(s)


def keyof(m, v, n, end):
    """position of a returned endpoint among the points"""
    if isinstance(v, int):
        if v == 0:
            return Fraction(n + 1) if end else Fraction(0)
        v = P(v)
    if not isinstance(v, Poly):
        raise ValueError(repr(v))
    a = v.single_atom()
    if a is not None and a.rank is not None:
        return a.rank
    at = v.atoms()
    if len(at) == 1:
        (a,) = at
        if a.rank is not None and v.add(Poly.of(a), -1).t == {(): 1}:
            return a.rank + Fraction(1, 2)
    if v.is_const() and v.cval() == TOP - 1 and n and m.signs(atomv(n, n).add(P(TOP - 1), -1)) == {0}:
        return Fraction(n)
    if v.is_const() and v.cval() == 1:
        return Fraction(1, 2)
    raise ValueError(repr(v))


def mkarr(m, vals):
    p = outbuf(m, max(len(vals), 1))
    for i, v in enumerate(vals):
        m.store(Ptr(p.obj, 8 * i), v, ['i', 64], 8)
    return p


HDR = 9
CAP = 24


def readset(m, out, off=0):
    """decode one dumped set: header fields and endpoint values"""
    g = lambda i: geti(m, out, off + i)
    h = [g(i) for i in range(HDR)]
    cnt, cntc = h[5], h[6]
    vals = [g(HDR + i) for i in range(2 * cnt)]
    valsc = [g(HDR + 2 * cnt + i) for i in range(2 * cntc)]
    return h, vals, valsc


COMMON = '''
#include "lsst/sphgeom/RangeSet.h"
#include <new>
using namespace lsst::sphgeom;
typedef unsigned long u64;
static RangeSet mk(u64 const *a, long n) {
  RangeSet s; for (long i = 0; i < n; i += 2) { s.insert(a[i], a[i + 1]); } return s; }
static void dump(RangeSet const &s, u64 *o) {
  o[0] = s.size(); o[1] = s.empty(); o[2] = s.full(); o[3] = s.cardinality(); o[4] = s.isValid();
  u64 n = 0, c = 0; u64 *q = o + 9;
  for (auto i = s.begin(), e = s.end(); i != e; ++i) { if (n > 9) __builtin_trap(); u64 f, l; std::tie(f, l) = *i; q[2 * n] = f; q[2 * n + 1] = l; ++n; }
  for (auto i = s.beginc(), e = s.endc(); i != e; ++i) { if (c > 9) __builtin_trap(); u64 f, l; std::tie(f, l) = *i; q[2 * (n + c)] = f; q[2 * (n + c) + 1] = l; ++c; }
  o[5] = n; o[6] = c; o[7] = (s == s); o[8] = (s != s); }
'''


def expect_set(c, m, out, off, want, pts, n, rule, key, where, desc, card=True):
    """the dumped set is exactly `want` (a set of cells), canonical and valid"""
    h, vals, valsc = readset(m, out, off)
    try:
        ks = [keyof(m, v, n, i & 1) for i, v in enumerate(vals)]
        kc = [keyof(m, v, n, i & 1) for i, v in enumerate(valsc)]
    except ValueError as e:
        return c.fail(rule, key, where, '%s: result endpoint %s is none of the input endpoints' % (desc(), e))
    pts = sorted(set(pts))
    # cells known to be empty in this partition (u+1 equal to the next point)
    sub = {}
    for i, p in enumerate(pts):
        if p.denominator == 2:
            a = P(0) if p == Fraction(1, 2) else atomv(int(p - Fraction(1, 2)), n)
            nx = pts[i + 1] if i + 1 < len(pts) else None
            b = P(TOP) if nx is None or nx == n + 1 else atomv(int(nx), n)
            if m.signs(b.add(a, -1).add(P(1), -1)) == {0}:
                sub[p] = nx if nx is not None else Fraction(n + 1)
    pts2 = [p for p in pts if p not in sub]
    ks = [sub.get(k, k) for k in ks]
    kc = [sub.get(k, k) for k in kc]
    want = frozenset(p for p in want if p not in sub)
    got, gotc = cells_of(ks, pts2), cells_of(kc, pts2)
    runs = sum(1 for i, p in enumerate(pts2) if p in want and (i == 0 or pts2[i - 1] not in want))
    ok = got == want and gotc == frozenset(pts2) - want and all(x < y for x, y in zip(ks, ks[1:])) and all(
        x < y for x, y in zip(kc, kc[1:])) and len(ks) == 2 * runs
    ok = ok and h[0] == runs and h[1] == int(not want) and h[2] == int(len(want) == len(pts2)) and h[4] == 1 and h[7] == 1 and h[8] == 0
    if card and ok:
        exp = P(0)
        for i in range(0, len(vals), 2):
            exp = exp.add(P(vals[i + 1])).add(P(vals[i]), -1)
        d = P(h[3]).add(exp, -1)
        ok = d.is_const() and (d.cval() / TOP).denominator == 1
    c.expect(ok, rule, key, where, lambda: '%s: got ranges %s, complement %s, size/empty/full/card/valid %s; want cells %s of points %s' % (
        desc(), vals, valsc, h[:5], sorted(map(float, want)), [float(p) for p in pts2]))
