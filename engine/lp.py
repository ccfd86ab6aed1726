"""Feasibility of linear constraints over the rationals by the general simplex
method (bounded slack variables, Bland's rule, exact arithmetic)."""
from fractions import Fraction


def feasible(cons, limit=20000):
    """cons: list of (dict var->coef, const, strict) meaning sum + const >= 0
    (> 0 when strict). Exact; returns True when the pivot limit is reached."""
    lo, hi = {}, {}          # column -> (value, delta) bounds
    rows = {}                # basic column -> {nonbasic column: coef}
    forms = {}

    def bound(x, k, strict, lower):
        # x >= k (lower) or x <= k; strictness as an infinitesimal
        b = (k, (1 if strict else 0) * (1 if lower else -1))
        if lower:
            if x not in lo or b > lo[x]:
                lo[x] = b
        else:
            if x not in hi or b < hi[x]:
                hi[x] = b
    for t, k, s in cons:
        t = {v: Fraction(c) for v, c in t.items() if c}
        if not t:
            if k < 0 or (s and k == 0):
                return False
            continue
        if len(t) == 1:
            (v, c), = t.items()
            bound(v, -k / c, s, c > 0)
            continue
        items = sorted(t.items(), key=lambda z: id(z[0]))
        f = items[0][1]
        key = tuple((id(v), c / f) for v, c in items)
        x = forms.get(key)
        if x is None:
            x = forms[key] = ('s', len(forms))
            rows[x] = {v: c / f for v, c in items}
        bound(x, -k / f, s, f > 0)
    for x in lo:
        if x in hi and lo[x] > hi[x]:
            return False
    Z = (Fraction(0), Fraction(0))
    val = {}
    cols = {v for r in rows.values() for v in r}
    order = {}
    for x in list(rows) + list(cols):
        order.setdefault(x, len(order))
    for v in cols:
        val[v] = lo.get(v) or hi.get(v) or Z
        val[v] = (Fraction(val[v][0]), Fraction(val[v][1]))
    for x, r in rows.items():
        a = b = Fraction(0)
        for v, c in r.items():
            a += c * val[v][0]
            b += c * val[v][1]
        val[x] = (a, b)
    occ = {}
    for x, r in rows.items():
        for v in r:
            occ.setdefault(v, set()).add(x)
    for _ in range(limit):
        viol = None
        for x in rows:
            if (x in lo and val[x] < lo[x]) or (x in hi and val[x] > hi[x]):
                if viol is None or order[x] < order[viol]:
                    viol = x
        if viol is None:
            return True
        x = viol
        up = x in lo and val[x] < lo[x]
        target = lo[x] if up else hi[x]
        best = None
        for v, c in rows[x].items():
            inc = (c > 0) == up
            if (inc and (v not in hi or val[v] < hi[v])) or (not inc and (v not in lo or val[v] > lo[v])):
                if best is None or order[v] < order[best]:
                    best = v
        if best is None:
            return False
        # pivot x <-> best
        y = best
        c = rows[x][y]
        d = ((target[0] - val[x][0]) / c, (target[1] - val[x][1]) / c)
        val[x] = target
        val[y] = (val[y][0] + d[0], val[y][1] + d[1])
        r = rows.pop(x)
        for v in r:
            occ[v].discard(x)
        new = {v: -k / c for v, k in r.items() if v is not y and v != y}
        new[x] = 1 / c
        for z in list(occ.get(y, ())):
            rz = rows[z]
            k = rz.pop(y)
            occ[y].discard(z)
            val[z] = (val[z][0] + k * d[0], val[z][1] + k * d[1])
            for v, q in new.items():
                n = rz.get(v, 0) + k * q
                if n:
                    rz[v] = n
                    occ.setdefault(v, set()).add(z)
                elif v in rz:
                    del rz[v]
                    occ[v].discard(z)
        rows[y] = new
        for v in new:
            occ.setdefault(v, set()).add(y)
    return True
