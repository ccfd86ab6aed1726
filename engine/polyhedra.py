"""Convex-polyhedra reasoning over linear constraints (Fourier-Motzkin), used
to discard empty partitions and to decide comparisons implied by earlier ones."""
from fractions import Fraction
import lp


def feasible(cons, limit=300):
    """cons: list of (dict var->coef, const, strict) meaning sum + const >= 0
    (or > 0).  Returns False only when certainly infeasible."""
    cur = []
    for t, k, s in cons:
        t = {v: c for v, c in t.items() if c}
        if not t:
            if k < 0 or (s and k == 0):
                return False
            continue
        cur.append((t, k, s))
    cur = dedup(cur)
    while True:
        vs = {}
        for t, k, s in cur:
            for v, c in t.items():
                p = vs.setdefault(v, [0, 0])
                p[0 if c > 0 else 1] += 1
        if not vs:
            return True
        v = min(vs, key=lambda x: vs[x][0] * vs[x][1])
        pos, neg, rest = [], [], []
        for con in cur:
            c = con[0].get(v)
            if c is None:
                rest.append(con)
            elif c > 0:
                pos.append(con)
            else:
                neg.append(con)
        if len(pos) * len(neg) + len(rest) > limit:
            return lp.feasible(cons)
        for t1, k1, s1 in pos:
            a = t1[v]
            for t2, k2, s2 in neg:
                b = -t2[v]
                t = {}
                for x, c in t1.items():
                    if x is not v:
                        t[x] = c / a
                for x, c in t2.items():
                    if x is not v:
                        n = t.get(x, 0) + c / b
                        if n:
                            t[x] = n
                        else:
                            t.pop(x, None)
                k = k1 / a + k2 / b
                s = s1 or s2
                if not t:
                    if k < 0 or (s and k == 0):
                        return False
                    continue
                rest.append((t, k, s))
        cur = dedup(rest)


def dedup(cons):
    best = {}
    for t, k, s in cons:
        # normalise by the first coefficient's magnitude
        vs = sorted(t, key=id)
        f = abs(t[vs[0]])
        key = tuple((id(v), t[v] / f) for v in vs)
        k = k / f
        o = best.get(key)
        if o is None or (k, not s) < (o[1], not o[2]):
            best[key] = ({v: t[v] / f for v in vs}, k, s)
    return list(best.values())


def linear(p):
    """polynomial -> (dict monomial->coef, const)"""
    t = {}
    k = Fraction(0)
    for m, c in p.t.items():
        if m:
            t[m] = c
        else:
            k = c
    return t, k


class Interner(dict):
    pass


_mono = {}


def mono(m):
    r = _mono.get(m)
    if r is None:
        r = _mono[m] = Mono(m)
    return r


class Mono:
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m


def con(p, strict):
    t, k = linear(p)
    return ({mono(m): c for m, c in t.items()}, k, strict)


def constraints_of(m, extra_atoms=()):
    """all linear knowledge of a machine partition"""
    out = []
    atoms = set(extra_atoms)
    monos = set()
    for key, s in m.facts.items():
        n = key.neg()
        if s == {1}:
            out.append(con(key, True))
        elif s == {0, 1}:
            out.append(con(key, False))
        elif s == {-1}:
            out.append(con(n, True))
        elif s == {-1, 0}:
            out.append(con(n, False))
        elif s == {0}:
            out.append(con(key, False))
            out.append(con(n, False))
        for mm in key.t:
            if mm:
                monos.add(mm)
    return out, monos


def knowledge(m, p):
    out, monos = constraints_of(m)
    for mm in p.t:
        if mm:
            monos.add(mm)
    from dom import Poly, INF, atom
    ranked = []
    if m.opts.get('lowexact'):
        # definitions: r = 2^k * quo(r, k) + low(r, k)
        done = set()
        todo = [a for mm in monos for a, _ in mm]
        while todo:
            a = todo.pop()
            if a.kind not in ('low', 'quo') or a in done:
                continue
            done.add(a)
            r, k = a.args
            d = r
            for kind, c in (('low', 1), ('quo', 1 << k)):
                b = atom(kind, (r, k), 0, (1 << k) - 1, isint=True) if kind == 'low' else None
                if b is None:
                    lo, hi = m.rng(r)
                    b = atom(kind, (r, k), lo >> k if isinstance(lo, int) else lo // (1 << k), hi // (1 << k), isint=True)
                done.add(b)
                d = d.add(Poly.of(b).scale(c), -1)
            out.append(con(d, False))
            out.append(con(d.neg(), False))
            for mm in d.t:
                if mm:
                    monos.add(mm)
                    todo += [x for x, _ in mm]
    for mm in monos:
        q = Poly({mm: Fraction(1)})
        lo, hi = m.rng(q)
        if lo not in (INF, -INF):
            out.append((({mono(mm): Fraction(1)}), -Fraction(lo), False))
        if hi not in (INF, -INF):
            out.append((({mono(mm): Fraction(-1)}), Fraction(hi), False))
        if len(mm) == 1 and mm[0][1] == 1 and mm[0][0].rank is not None:
            ranked.append((mm[0][0].rank, mm))
    ranked.sort(key=lambda x: x[0])
    for (r1, m1), (r2, m2) in zip(ranked, ranked[1:]):
        out.append(({mono(m1): Fraction(-1), mono(m2): Fraction(1)}, Fraction(0), r2 > r1))
        if r1 == r2:
            out.append(({mono(m1): Fraction(1), mono(m2): Fraction(-1)}, Fraction(0), False))
    consts = sorted(m.opts.get('consts', ()))
    for r, mm in ranked:
        for c in consts:
            if r > c:
                out.append(({mono(mm): Fraction(1)}, -Fraction(c), True))
            elif r < c:
                out.append(({mono(mm): Fraction(-1)}, Fraction(c), True))
            else:
                out.append(({mono(mm): Fraction(1)}, -Fraction(c), False))
                out.append(({mono(mm): Fraction(-1)}, Fraction(c), False))
    return out


def relevant(cons, p):
    """the constraints connected to the monomials of p; the others have a
    solution of their own, this partition not being empty"""
    by = {}
    for i, (t, k, s) in enumerate(cons):
        for v in t:
            by.setdefault(v, []).append(i)
    seen, out = set(), set()
    todo = [mono(mm) for mm in p.t if mm]
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        for i in by.get(v, ()):
            if i not in out:
                out.add(i)
                todo += [w for w in cons[i][0] if w not in seen]
    return [c for i, c in enumerate(cons) if i in out or not c[0]]


def possible_signs(m, p, s):
    """subset of sign set s that the polyhedron allows"""
    base = relevant(knowledge(m, p), p)
    out = set()
    for g in s:
        if g == 1:
            c = [con(p, True)]
        elif g == -1:
            c = [con(p.neg(), True)]
        else:
            c = [con(p, False), con(p.neg(), False)]
        if feasible(base + c):
            out.add(g)
    return out
