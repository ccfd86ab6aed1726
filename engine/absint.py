"""Trace-partitioned abstract interpreter for LLVM IR (see dom.py for values).

Nothing of the analysed program is compiled to machine code or executed: the
interpreter walks the IR control-flow graph of the functions reachable from an
analysis entry point, over abstract values and an abstract memory of objects
(with liveness, bounds and mutability).  A comparison the abstract state does
not decide splits the abstract state in two (trace partitioning); all parts
are analysed.
"""
import json
import math
import struct
from fractions import Fraction
import polyhedra
from dom import Poly, Atom, atom, P, sym, INF, NAN


class Unsupported(Exception):
    """the analysis cannot interpret this construct (analysis error)"""


class Infeasible(Exception):
    """current partition is empty"""


class Alarm(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind, self.msg = kind, msg
        self.where = None


class CxxThrow(Exception):
    def __init__(self, obj, tinfo):
        self.obj, self.tinfo = obj, tinfo


class Budget(Exception):
    pass


class _Undef:
    def __repr__(self):
        return 'undef'


UNDEF = _Undef()


class Obj:
    __slots__ = ('name', 'size', 'cells', 'kind', 'alive', 'align', 'const', 'loc', 'tag')
    n = 0

    def __init__(self, name, size, kind, const=False, align=16, loc=None):
        self.name, self.size, self.kind, self.const, self.align = name, size, kind, const, align
        self.cells = {}
        self.alive = True
        self.loc = loc
        self.tag = None

    def __repr__(self):
        return '<%s %s %s>' % (self.kind, self.name, self.size)


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj is o.obj and self.off == o.off

    def __hash__(self):
        return hash((id(self.obj), self.off))

    def __repr__(self):
        return '&%s+%s' % (self.obj.name if self.obj else 'null', self.off)


NULL = Ptr(None, 0)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'fn:' + self.name


class Vec(tuple):
    pass


def b2d(bits):
    return struct.unpack('<d', struct.pack('<Q', bits))[0]


def d2b(d):
    return struct.unpack('<Q', struct.pack('<d', d))[0]


def tsize(t):
    k = t[0]
    if k == 'i':
        return (t[1] + 7) // 8
    if k in 'dp':
        return 8
    if k == 'f':
        return 4
    if k == 'x':
        return 16
    if k == 'V':
        return t[1] * tsize(t[2])
    if k == 'A':
        return t[1] * t[3]
    if k == 'S':
        return t[1]
    raise Unsupported('type %s' % (t,))


class Func:
    __slots__ = ('name', 'dem', 'decl', 'nargs', 'blocks', 'consts', 'nval', 'file', 'line', 'ret', 'raw', 'args',
                 'aattr', 'ready', 'linkonce', 'internal')


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.files = d['files']
        self.funcs = {}
        self.bydem = {}
        for f in d['functions']:
            x = Func()
            x.name, x.dem, x.decl, x.nargs, x.nval = f['name'], f['dem'], f['decl'], f['nargs'], f['nval']
            x.file = self.files[f['file']] if 'file' in f else None
            x.line = f.get('line')
            x.ret, x.raw, x.args, x.ready = f['ret'], f['blocks'], f['args'], False
            x.linkonce, x.internal = f['linkonce'], f['internal']
            x.aattr = f['aattr']
            self.funcs[x.name] = x
            self.bydem.setdefault(x.dem, x)
        self.globals = {g[0]: g for g in d['globals']}
        self.aliases = d['aliases']

    def loc(self, l):
        if not l:
            return '?'
        return '%s:%d' % (self.files[l[0]], l[1])

    def prepare(self, f):
        """operands become register indices; constants are appended to the
        register file."""
        consts = []
        cidx = {}

        uses = {}

        def opnd(o):
            if isinstance(o, int):
                uses[o] = uses.get(o, 0) + 1
                return o
            key = json.dumps(o)
            i = cidx.get(key)
            if i is None:
                i = f.nval + len(consts)
                consts.append(o)
                cidx[key] = i
            return i
        blocks = []
        for b in f.raw:
            out = []
            for op, rid, ty, loc, a in b:
                if op == 'getelementptr':
                    a = (opnd(a[0]), a[1], tuple((opnd(x[0]), x[1], x[2]) for x in a[2]), a[3])
                elif op == 'alloca':
                    a = (a[0], opnd(a[1]), a[2])
                elif op == 'load':
                    a = (opnd(a[0]), a[1], a[2])
                elif op == 'store':
                    a = (opnd(a[0]), opnd(a[1]), a[2], a[3], a[4])
                elif op == 'phi':
                    a = {src: opnd(v) for v, src in a}
                elif op in ('icmp', 'fcmp'):
                    a = (a[0], a[1], opnd(a[2]), opnd(a[3]))
                elif op in ('call', 'invoke'):
                    callee = a[0]
                    if isinstance(callee, list) and callee[0] == 'g':
                        callee = callee[1]
                    elif isinstance(callee, list) and callee[0] == 'asm':
                        callee = '<asm>'
                    else:
                        callee = opnd(callee)
                    a = (callee, tuple(opnd(x) for x in a[1]), a[2], a[3]) + tuple(a[4:])
                elif op == 'br':
                    a = (opnd(a[0]), a[1], a[2]) if len(a) == 3 else (a[0],)
                elif op == 'switch':
                    a = (opnd(a[0]), a[1], {v: t for v, t in a[2]}, a[3])
                elif op == 'extractvalue':
                    a = (opnd(a[0]), a[1])
                elif op == 'insertvalue':
                    a = (opnd(a[0]), opnd(a[1]), a[2])
                elif op == 'shufflevector':
                    a = (opnd(a[0]), opnd(a[1]), a[2], a[3])
                elif op == 'landingpad':
                    pass
                elif op == 'atomicrmw':
                    a = (a[0], opnd(a[1]), opnd(a[2]), a[3])
                elif len(a) == 2 and isinstance(a[1], list) and a[1] and a[1][0] in 'idfpVx' and op in CASTS:
                    a = (opnd(a[0]), a[1])
                else:
                    a = tuple(opnd(x) for x in a)
                out.append((HANDLERS.get(op), op, rid, ty, loc, a))
            blocks.append(out)
        # comparisons whose only users are selects between their operands
        sel = {}
        for b in blocks:
            for x in b:
                if x[1] == 'select':
                    sel.setdefault(x[5][0], []).append({x[5][1], x[5][2]})
        for b in blocks:
            for k, x in enumerate(b):
                if x[1] == 'fcmp' and x[2] in sel and len(sel[x[2]]) == uses.get(x[2]) \
                        and all(z == {x[5][2], x[5][3]} for z in sel[x[2]]):
                    b[k] = x[:5] + (x[5] + (True,),)
        f.blocks = blocks
        f.consts = consts
        f.ready = True


CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
         'fpext', 'fptrunc', 'addrspacecast'}


class Frame:
    __slots__ = ('f', 'r', 'allocas', 'line')


class Machine:
    """One abstract execution partition. `prefix` is the list of split
    decisions to follow; new splits are appended to `trace`."""

    def __init__(self, prog, prefix=(), stubs=None, opts=None):
        self.prog = prog
        self.prefix = prefix
        self.trace = []          # [choice, nchoices]
        self.tdesc = []
        self.facts = {}
        self.bounds = {}
        self.dbounds = {}
        self.globs = {}
        self.stubs = stubs or {}
        self.opts = opts or {}
        self.depth = 0
        self.steps = 0
        self.maxsteps = self.opts.get('maxsteps', 400000)
        self.stack = []
        self.exc = []
        self.heap = []
        self.dead_allocas = 0
        self.cov = self.opts.get('cov')
        self.alloc_hook = None
        self.alarms = []
        self.tids = {}
        self.store_hook = None

    # ---- partitioning -------------------------------------------------
    def choose(self, n, desc=''):
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            c = 0
        self.trace.append([c, n])
        self.tdesc.append((desc, self.here(), c))
        if len(self.trace) > self.opts.get('maxsplit', 4000):
            raise Budget('too many splits')
        return c

    def here(self):
        # innermost frame
        for fr in reversed(self.stack):
            if fr.line:
                return self.prog.loc(fr.line)
        return '?'

    def where(self):
        out = []
        for fr in reversed(self.stack):
            out.append('%s (%s)' % (fr.f.dem.split('(')[0], self.prog.loc(fr.line) if fr.line else '?'))
        return out

    # ---- intervals ----------------------------------------------------
    def arng(self, a):
        b = self.bounds.get(a)
        if b is not None:
            return b
        if a.rank is not None:
            return (a.rank, a.rank) if False else (a.lo, a.hi)
        return (a.lo, a.hi)

    def datom(self, kind, args, lo=-INF, hi=INF, isint=False):
        """an atom whose bounds are only known to hold on this path"""
        a = atom(kind, args, isint=isint)
        l, h = self.bounds.get(a, (a.lo, a.hi))
        self.bounds[a] = (max(l, lo), min(h, hi))
        return a

    def rng(self, p):
        lo = hi = 0
        for m, c in p.t.items():
            if c.denominator == 1:
                c = c.numerator
            if not m:
                lo += c
                hi += c
                continue
            if len(m) == 1 and m[0][1] == 1:
                a, b = self.arng(m[0][0])
                if c != 1:
                    a, b = (xm(a, c), xm(b, c)) if c > 0 else (xm(b, c), xm(a, c))
                lo += a
                hi += b
                continue
            a, b = c, c
            for x, e in m:
                l, h = self.arng(x)
                if e % 2 == 0:
                    al, ah = abs(l), abs(h)
                    mn = 0 if l <= 0 <= h else min(al, ah)
                    l, h = pw(mn, e), pw(max(al, ah), e)
                else:
                    l, h = pw(l, e), pw(h, e)
                c4 = (xm(a, l), xm(a, h), xm(b, l), xm(b, h))
                a, b = min(c4), max(c4)
            lo = lo + a if not (lo in (INF, -INF)) else lo
            hi = hi + b if not (hi in (INF, -INF)) else hi
            if a == -INF:
                lo = -INF
            if b == INF:
                hi = INF
        return lo, hi

    def rank_rng(self, p):
        """range of a linear form, pairing ranked integer atoms of one family
        that occur with opposite coefficients"""
        lin = []
        lo = hi = 0
        for m, c in p.t.items():
            if not m:
                lo += c
                hi += c
            elif len(m) == 1 and m[0][1] == 1:
                lin.append([m[0][0], c])
            else:
                return -INF, INF
        lin.sort(key=lambda z: z[0].id)
        while lin:
            a, c = lin.pop()
            j = None
            if a.rank is not None and a.isint:
                for i, (b, d) in enumerate(lin):
                    if d == -c and b.rank is not None and b.isint and b.args[0][0].lower() == a.args[0][0].lower():
                        j = i
                        break
            al, ah = self.arng(a)
            if j is None:
                lo += xm(al, c) if c > 0 else xm(ah, c)
                hi += xm(ah, c) if c > 0 else xm(al, c)
                continue
            b, _ = lin.pop(j)
            bl, bh = self.arng(b)
            dl, dh = al - bh, ah - bl
            if a.rank >= b.rank:
                dl = max(dl, a.rank - b.rank)
            if a.rank <= b.rank:
                dh = min(dh, a.rank - b.rank)
            lo += c * (dl if c > 0 else dh)
            hi += c * (dh if c > 0 else dl)
        return lo, hi

    # ---- comparison ---------------------------------------------------
    def signs(self, p):
        """possible signs of polynomial p in this partition"""
        if not p.t:
            return {0}
        if p.is_const():
            c = p.cval()
            return {1} if c > 0 else {-1}
        if len(p.t) == 2:
            (m1, c1), (m2, c2) = p.t.items()
            if len(m1) == 1 and len(m2) == 1 and m1[0][1] == 1 and m2[0][1] == 1 and c1.numerator == -c2.numerator \
                    and c1.denominator == c2.denominator:
                r1, r2 = m1[0][0].rank, m2[0][0].rank
                if r1 is not None and r2 is not None:
                    v = (r1 > r2) - (r1 < r2)
                    return {v if c1.numerator > 0 else -v}
        at = p.atoms()
        rdist = None
        # ranked atoms: difference of two ranked atoms, or atom vs constant
        if len(at) <= 2 and all(a.rank is not None for a in at):
            lin = {}
            ok = True
            for m, c in p.t.items():
                if len(m) == 0:
                    lin[None] = c
                elif len(m) == 1 and m[0][1] == 1:
                    lin[m[0][0]] = c
                else:
                    ok = False
            if ok:
                k = lin.pop(None, Fraction(0))
                if len(lin) == 1:
                    (a, c), = lin.items()
                    v = c * a.rank + k
                    if -k / c in self.opts.get('consts', ()):
                        return {(v > 0) - (v < 0)}
                    # otherwise: interval between neighbouring constants
                elif len(lin) == 2 and k == 0:
                    (a, c), (b, d) = lin.items()
                    if c == -d:
                        v = c * a.rank + d * b.rank
                        return {(v > 0) - (v < 0)}
                elif len(lin) == 2 and self.opts.get('rankdist') and all(a.isint for a in lin):
                    # distinct integer ranks are consecutive integers: values
                    # differ by at least the difference of the ranks
                    (a, c), (b, d) = lin.items()
                    if c == -d:
                        v = c * (a.rank - b.rank)
                        if v == 0:
                            return {(k > 0) - (k < 0)}
                        if v > 0 and v + k >= 0:
                            bound = {1} if v + k > 0 else {0, 1}
                            if bound == {1}:
                                return bound
                            rdist = bound
                        elif v < 0 and v + k <= 0:
                            bound = {-1} if v + k < 0 else {0, -1}
                            if bound == {-1}:
                                return bound
                            rdist = bound
        s = rdist or {-1, 0, 1}
        if self.dbounds:
            z = self.idiff(p)
            if z and (z[0], z[1]) in self.dbounds:
                a, b, c, k = z
                lo, hi = self.dbounds[(a, b)]
                d = {x for x, ok in ((-1, lo < -k), (0, lo <= -k <= hi), (1, hi > -k)) if ok}
                s = s & (d if c > 0 else {-x for x in d})
                if not s:
                    raise Infeasible()
                if len(s) == 1:
                    return s
        lo, hi = self.rng(p)
        if lo < 0 < hi and len(p.t) > 2 and self.opts.get('rankdist'):
            l2, h2 = self.rank_rng(p)
            lo, hi = max(lo, l2), min(hi, h2)
        if lo > 0:
            return {1}
        if hi < 0:
            return {-1}
        if lo == 0:
            s.discard(-1)
        if hi == 0:
            s.discard(1)
        key, flip = canon(p)
        f = self.facts.get(key)
        if f is not None:
            s &= {-x for x in f} if flip else f
            if not s:
                raise Infeasible()
        if len(s) > 1:
            # product/common-factor: all monomials same sign pattern
            s2 = self.sign_hint(p)
            if s2 is not None:
                s &= s2
                if not s:
                    raise Infeasible()
        if len(s) > 1 and self.opts.get('invfactor'):
            q, es = self.inv_factor(p)
            if q is not None:
                s2 = self.signs(q)
                for a, e in es:
                    s3 = self.signs(a.args[0]) - {0}
                    s2 = {x * (y if e & 1 else y * y) for x in s2 for y in s3}
                s = s & s2
                if not s:
                    raise Infeasible()
        if len(s) > 1 and self.opts.get('poly'):
            s = polyhedra.possible_signs(self, p, s)
            if not s:
                raise Infeasible()
        if len(s) > 1 and self.opts.get('minmax'):
            s = s & self.mm_signs(p, s)
            if not s:
                raise Infeasible()
        return s

    def mm_signs(self, p, s):
        """a minimum or maximum is one of its operands: a sign p can have, it
        has with one of them"""
        return {g for g in s if not self.mm_excludes(p, g, 12)}

    def mm_excludes(self, p, g, depth):
        if not p.t or p.is_const():
            return g not in self.signs(p)
        if g:
            lo, hi = self.rng(p)
            if (lo >= 0 and g < 0) or (hi <= 0 and g > 0):
                return True
        try:
            if g not in polyhedra.possible_signs(self, p, {g}):
                return True
        except Infeasible:
            return True
        if not depth:
            return False
        # the defining inequalities bound one side; the other side is only
        # bounded operand by operand
        for k in sorted(p.t, key=lambda z: [(a.id, e) for a, e in z]):
            if len(k) == 1 and k[0][1] == 1 and k[0][0].kind in ('min', 'max'):
                a, c = k[0][0], p.t[k]
                if g and (a.kind == 'min') != ((c > 0) == (g < 0)):
                    continue
                if any(a is z[0] for z2 in p.t if z2 != k for z in z2):
                    continue
                rest = Poly({x: y for x, y in p.t.items() if x != k})
                return all(self.mm_excludes(rest.add(x.scale(c)), g, depth - 1) for x in a.args)
        return False

    def inv_factor(self, p):
        """p = q * product of powers of reciprocals: (q, [(inv atom, exponent)]) by clearing denominators, or (None, None)"""
        es = {}
        for m in p.t:
            for a, e in m:
                if a.kind == 'inv':
                    es[a] = max(es.get(a, 0), e)
        if not es:
            return None, None
        q = Poly({})
        for m, c in p.t.items():
            d = dict(m)
            r = P(c)
            for a, e in es.items():
                for _ in range(e - d.pop(a, 0)):
                    r = r.mul(a.args[0])
            q = q.add(r.mul(Poly({tuple((a, e) for a, e in m if a in d): Fraction(1)})))
        return q, list(es.items())

    def sign_hint(self, p):
        h = self.opts.get('sign_hint')
        if h:
            return h(self, p)
        return None

    def idiff(self, p):
        """p = c*(a - b + k) with integer atoms a, b: (a, b, c, k)"""
        if len(p.t) not in (2, 3):
            return None
        lin, k = [], Fraction(0)
        for m, c in p.t.items():
            if not m:
                k = c
            elif len(m) == 1 and m[0][1] == 1 and m[0][0].isint:
                lin.append((m[0][0], c))
            else:
                return None
        if len(lin) != 2 or lin[0][1] != -lin[1][1]:
            return None
        lin.sort(key=lambda z: z[0].id)
        (a, c), (b, _) = lin
        k = k / c
        if k.denominator != 1:
            return None
        return a, b, c, k

    def learn(self, p, s):
        if self.opts.get('invfactor'):
            q, es = self.inv_factor(p)
            if q is not None:
                sg = 1
                for a, e in es:
                    z = self.signs(a.args[0]) - {0}
                    sg = sg * next(iter(z)) ** e if len(z) == 1 else 0
                if sg:
                    self.learn(q, {x * sg for x in s})
        z = self.idiff(p)
        if z:
            a, b, c, k = z
            ss = s if c > 0 else {-x for x in s}
            lo, hi = self.dbounds.get((a, b), (-INF, INF))
            if 1 not in ss:
                hi = min(hi, -k - (0 if 0 in ss else 1))
            if -1 not in ss:
                lo = max(lo, -k + (0 if 0 in ss else 1))
            if 0 not in ss and len(ss) == 2:
                if lo == -k:
                    lo += 1
                if hi == -k:
                    hi -= 1
            if lo > hi:
                raise Infeasible()
            self.dbounds[(a, b)] = (lo, hi)
        key, flip = canon(p)
        t = {-x for x in s} if flip else set(s)
        o = self.facts.get(key)
        n = t if o is None else (o & t)
        if not n:
            raise Infeasible()
        self.facts[key] = n
        # refine interval of a single linear atom
        if len(p.t) <= 2:
            lin = [(m, c) for m, c in p.t.items() if m]
            if len(lin) == 1 and len(lin[0][0]) == 1 and lin[0][0][0][1] == 1:
                a, c = lin[0][0][0][0], lin[0][1]
                k = -p.cval() / c
                lo, hi = self.arng(a)
                ss = s if c > 0 else {-x for x in s}
                if 1 not in ss:
                    hi = min(hi, k)
                if -1 not in ss:
                    lo = max(lo, k)
                if a.isint:
                    if 0 not in ss:
                        if 1 not in ss and hi == k:
                            hi = math.ceil(k) - 1
                        if -1 not in ss and lo == k:
                            lo = math.floor(k) + 1
                    if lo != -INF:
                        lo = math.ceil(lo)
                    if hi != INF:
                        hi = math.floor(hi)
                if lo > hi:
                    raise Infeasible()
                self.bounds[a] = (lo, hi)

    def decide(self, p, truth):
        """truth: set of signs of p for which the predicate is true"""
        s = self.signs(p)
        t = s & truth
        if not t:
            return 0
        if t == s:
            return 1
        f = s - truth
        pol = self.opts.get('policy')
        if pol:
            v = pol(self, p, s)
            if v is not None:
                self.learn(p, {v})
                return int(v in truth)
        if self.choose(2, lambda: '%s %s 0' % (p, TR.get(frozenset(truth), truth))) == 0:
            self.learn(p, f)
            return 0
        self.learn(p, t)
        return 1

    def sign_of(self, p):
        """split until the sign is known"""
        if self.decide(p, {1}):
            return 1
        return -1 if self.decide(p, {-1}) else 0

    # ---- float --------------------------------------------------------
    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF:
            raise Alarm('uninit', 'comparison of uninitialised value')
        ca, cb = isinstance(a, float), isinstance(b, float)
        if (ca and a != a) or (cb and b != b):
            return 1 if pred[0] == 'u' else 0
        if pred == 'ord':
            return 1
        if pred == 'uno':
            return 0
        if pred in ('true', 'false'):
            return int(pred == 'true')
        truth = FP[pred[1:]]
        if ca and cb:
            s = (a > b) - (a < b)
            return int(s in truth)
        if ca and a in (INF, -INF):
            return int((1 if a > 0 else -1) in truth)
        if cb and b in (INF, -INF):
            return int((-1 if b > 0 else 1) in truth)
        return self.decide(P(a).add(P(b), -1), truth)

    def fbin(self, op, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        ca, cb = isinstance(a, float), isinstance(b, float)
        if ca and cb:
            return cfbin(op, a, b)
        if 'fhook' in self.opts:
            r = self.opts['fhook'](self, op, a, b)
            if r is not None:
                return r
        if (ca and a != a) or (cb and b != b):
            return NAN
        if ca and a in (INF, -INF) or cb and b in (INF, -INF):
            return self.finf(op, a, b)
        pa, pb = P(a), P(b)
        if op == 'fadd':
            return unp(pa.add(pb))
        if op == 'fsub':
            return unp(pa.add(pb, -1))
        if op == 'fmul':
            return unp(pa.mul(pb))
        if op == 'fdiv':
            if pb.is_const():
                c = pb.cval()
                if c == 0:
                    s = self.sign_of(pa)
                    return NAN if s == 0 else INF * s * math.copysign(1, b)
                return unp(pa.scale(1 / c))
            # monomial divisor factor: c * atom^1
            return unp(pa.mul(self.inv(pb)))
        if op == 'frem':
            return self.fn('fmod', pa, pb)
        raise Unsupported(op)

    def inv(self, p):
        # pull out rational content so inv(k*x) = inv(x)/k
        k = next(iter(sorted(p.t.items(), key=lambda kv: [(a.id, e) for a, e in kv[0]])))[1]
        q = p.scale(1 / k)
        if self.opts.get('div0') and 0 in self.signs(q):
            raise Alarm('div0', 'division by a value that may be zero: %s' % p)
        lo, hi = self.rng(q)
        l, h = -INF, INF
        if lo > 0:
            l, h = (Fraction(1) / hi if hi != INF else 0), Fraction(1) / lo
        elif lo == 0:
            l = 0
        return Poly.of(self.datom('inv', (q,), l, h)).scale(Fraction(1) / k)

    def finf(self, op, a, b):
        if op in ('fadd', 'fsub'):
            if isinstance(a, float) and a in (INF, -INF):
                return a
            return b if op == 'fadd' else -b
        if op == 'fmul':
            x, p = (a, b) if isinstance(a, float) and a in (INF, -INF) else (b, a)
            s = self.sign_of(P(p))
            return NAN if s == 0 else x * s
        if op == 'fdiv':
            if isinstance(a, float) and a in (INF, -INF):
                s = self.sign_of(P(b))
                return a * (s or 1)
            return 0.0
        if op == 'frem':
            return a if isinstance(b, float) and b in (INF, -INF) else NAN
        raise Unsupported(op)

    def fn(self, name, *args, lo=None, hi=None):
        args = tuple(P(a) for a in args)
        l, h = FNRANGE.get(name, (-INF, INF))
        if lo is not None:
            l = lo
        if hi is not None:
            h = hi
        return Poly.of(atom(name, args, l, h))

    # ---- integers -----------------------------------------------------
    def canon_u(self, p, w):
        if isinstance(p, int):
            return p & ((1 << w) - 1)
        M = 1 << w
        lo, hi = self.rng(p)
        if lo >= 0 and hi < M:
            return p
        if lo == -INF or hi == INF or self.opts.get('lowexact'):
            return self.lowbits(p, w)
        k0, k1 = (lo // M), (hi // M)
        if k1 - k0 > 3:
            return self.lowbits(p, w)
        k = k0
        while k < k1:
            # p < (k+1)*M ?
            if self.decide(p.add(P((k + 1) * M), -1), {-1}):
                break
            k += 1
        return unpi(p.add(P(k * M), -1), w)

    def canon_s(self, p, w):
        if isinstance(p, int):
            p &= (1 << w) - 1
            return p - (1 << w) if p >> (w - 1) else p
        H = 1 << (w - 1)
        lo, hi = self.rng(p)
        if lo >= -H and hi < H:
            return p
        u = self.canon_u(p.add(P(H)), w)
        return u - H if isinstance(u, int) else u.add(P(H), -1)

    def lowbits(self, p, k):
        """p mod 2^k as a value in [0, 2^k)"""
        if isinstance(p, int):
            return p & ((1 << k) - 1)
        M = 1 << k
        rest = {}
        for m, c in p.t.items():
            if (c / M).denominator == 1 and all(a.isint for a, _ in m):
                continue
            rest[m] = c
        r = Poly(rest)
        if not rest:
            return 0
        if r.is_const():
            return int(r.cval()) % M
        lo, hi = self.rng(r)
        if lo >= 0 and hi < M:
            return r
        if lo != -INF and hi != INF and (lo // M) == (hi // M):
            return r.add(P((lo // M) * M), -1)
        if self.opts.get('lowexact'):
            j = 0
            while j < k and all((c / 2).denominator == 1 for c in r.t.values()):
                r, j = r.scale(Fraction(1, 2)), j + 1
            if j:
                return P(self.lowbits(r, k - j)).scale(1 << j)
            if hi // M - lo // M == 1:
                return r.add(P(self.ksplit(r, lo // M, M) * M), -1)
        x = r.single_atom()
        if x is not None and x.kind == 'low' and k <= x.args[1]:
            return self.lowbits(x.args[0], k)
        a = atom('low', (r, k), 0, M - 1, isint=True)
        return Poly.of(a)

    def ksplit(self, r, k, M):
        """floor(r / M), one of k and k + 1"""
        return k if self.decide(r.add(P((k + 1) * M), -1), {-1}) else k + 1

    def quo(self, u, k):
        """floor(u / 2^k) as an atom: u = 2^k * quo + low"""
        M = 1 << k
        rest, mult = {}, {}
        for m, c in u.t.items():
            (mult if (c / M).denominator == 1 else rest)[m] = c / M if (c / M).denominator == 1 else c
        q, r = Poly(mult), Poly(rest)
        if not rest:
            return unp2(q)
        while k and all((c / 2).denominator == 1 for c in r.t.values()):
            r, k = r.scale(Fraction(1, 2)), k - 1
        M = 1 << k
        if k == 0:
            return unp2(q.add(r))
        lo, hi = self.rng(r)
        if lo == -INF or hi == INF:
            raise Unsupported('quotient of an unbounded value')
        if lo // M == hi // M:
            return unp2(q.add(P(lo // M)))
        if hi // M - lo // M == 1:
            return unp2(q.add(P(self.ksplit(r, lo // M, M))))
        return q.add(Poly.of(self.datom('quo', (r, k), lo // M, hi // M, isint=True)))

    def ibin(self, op, a, b, w):
        if a is UNDEF or b is UNDEF:
            if op in ('and', 'mul') and (a == 0 or b == 0):
                return 0
            return UNDEF
        M = (1 << w) - 1
        ia, ib = isinstance(a, int), isinstance(b, int)
        if ia and ib:
            return cibin(op, a, b, w)
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            return self.pbin(op, a, b, w)
        if isinstance(a, BitVal) or isinstance(b, BitVal):
            return bitbin(self, op, a, b, w)
        if not (ia or isinstance(a, Poly)) or not (ib or isinstance(b, Poly)):
            raise Unsupported('int op %s on %r %r' % (op, a, b))
        if w == 64 and op in ('and', 'or', 'xor') and (ia or ib):
            r = self.dbitop(op, a, b)
            if r is not None:
                return r
        if op in ('add', 'sub', 'mul'):
            pa, pb = P(sgn(a, w)), P(sgn(b, w))
            if op == 'mul' and ia and a > (1 << (w - 1)) and a & (a - 1) == 0:
                pa = P(a)
            r = pa.add(pb) if op == 'add' else pa.add(pb, -1) if op == 'sub' else pa.mul(pb)
            if op == 'add' and len(r.t) == 8:
                r = join_mem(r)
            return unpi(self.wrapchk(r, w), w)
        if op == 'shl':
            if ib:
                return unpi(self.wrapchk(P(a).scale(1 << b), w), w)
            b = self.concretize(b)
            return self.ibin(op, a, b, w)
        if op == 'lshr':
            if not ib:
                b = self.concretize(b)
                return self.ibin(op, a, b, w)
            u = self.canon_u(a, w)
            if isinstance(u, int):
                return u >> b
            if self.opts.get('lowexact'):
                return self.quo(u, b)
            l = self.lowbits(u, b)
            return unpi(u.add(P(l), -1).scale(Fraction(1, 1 << b)), w)
        if op == 'ashr':
            if not ib:
                b = self.concretize(b)
                return self.ibin(op, a, b, w)
            u = self.canon_s(a, w)
            if isinstance(u, int):
                return (u >> b) & M
            if self.opts.get('lowexact'):
                q = self.quo(u, b)
                return q & M if isinstance(q, int) else q
            l = self.lowbits(u, b)
            return unpi(u.add(P(l), -1).scale(Fraction(1, 1 << b)), w)
        if op == 'and':
            if ia:
                a, b, ia, ib = b, a, ib, ia
            if ib:
                if b == 0:
                    return 0
                if b == M:
                    return a
                if b & (b + 1) == 0:
                    return self.lowbits(a, b.bit_length())
                inv = M & ~b
                if inv & (inv + 1) == 0:
                    u = self.canon_u(a, w)
                    if isinstance(u, int):
                        return u & b
                    l = self.lowbits(u, inv.bit_length())
                    return unpi(u.add(P(l), -1), w)
                # contiguous mask in the middle
                sh = (b & -b).bit_length() - 1
                mm = b >> sh
                if mm & (mm + 1) == 0:
                    u = self.ibin('lshr', a, sh, w)
                    l = self.lowbits(u, mm.bit_length())
                    return self.ibin('shl', l, sh, w)
            return self.iop('and', a, b, w)
        if op == 'or':
            if ia and a == 0:
                return b
            if ib and b == 0:
                return a
            ua, ub = self.canon_u(a, w), self.canon_u(b, w)
            for x, y in ((ua, ub), (ub, ua)):
                # x multiple of 2^k, y < 2^k
                yh = y if isinstance(y, int) else self.rng(y)[1]
                if yh == INF:
                    continue
                k = int(yh).bit_length()
                if self.lowbits(x, k) == 0:
                    return unpi(P(x).add(P(y)), w)
            return self.iop('or', ua, ub, w)
        if op == 'xor':
            if ib and b == M:
                return unpi(P(-1).add(P(a), -1), w)
            if ia and a == M:
                return unpi(P(-1).add(P(b), -1), w)
            return self.iop('xor', a, b, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            cn = self.canon_u if op[0] == 'u' else self.canon_s
            u, v = cn(a, w), cn(b, w)
            if isinstance(u, int) and isinstance(v, int):
                return cibin(op, u & M, v & M, w)
            if self.decide(P(v), {0}):
                raise Alarm('div0', 'integer division by zero')
            lo, hi = self.rng(P(u))
            vl, vh = self.rng(P(v))
            if lo >= 0 and vl > 0:
                q = Poly.of(self.datom('idiv', (P(u), P(v)), (lo // vh) if vh != INF and lo != INF else 0,
                                 (hi // vl) if hi != INF else INF, isint=True))
                if op[1:] == 'div':
                    return q
                rem = P(u).add(q.mul(P(v)), -1)
                return Poly.of(self.datom('irem', (P(u), P(v)), 0, min(hi, vh - 1), isint=True))
            return self.iop(op, u, v, w)
        raise Unsupported(op)

    def iop(self, op, a, b, w):
        pa, pb = P(a), P(b)
        hi = (1 << w) - 1
        if op == 'and':
            hi = min(hi, max(self.rng(P(self.canon_u(a, w)))[1], 0), max(self.rng(P(self.canon_u(b, w)))[1], 0))
        if op == 'or' or op == 'xor':
            h = max(self.rng(P(self.canon_u(a, w)))[1], self.rng(P(self.canon_u(b, w)))[1])
            if h != INF:
                hi = min(hi, (1 << int(h).bit_length()) - 1)
        if op in ('and', 'or', 'xor') and hash(pb) < hash(pa):
            pa, pb = pb, pa
        return Poly.of(self.datom('i' + op, (pa, pb, w), 0, hi, isint=True))

    def wrapchk(self, p, w):
        return p

    def concretize(self, p, limit=80):
        """enumerate the values of an abstract integer"""
        if isinstance(p, int):
            return p
        lo, hi = self.rng(p)
        if lo == -INF or hi == INF or hi - lo > limit:
            raise Unsupported('cannot enumerate %s in [%s,%s]' % (p, lo, hi))
        lo, hi = math.ceil(lo), math.floor(hi)
        vals = [v for v in range(lo, hi + 1) if 0 in self.signs(p.add(P(v), -1))]
        if not vals:
            raise Infeasible()
        k = self.choose(len(vals), lambda: 'value of %s in %s' % (p, vals)) if len(vals) > 1 else 0
        self.learn(p.add(P(vals[k]), -1), {0})
        return vals[k]

    def pbin(self, op, a, b, w):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj:
                return self.ibin('sub', a.off, b.off, w)
            raise Alarm('ptr', 'subtraction of unrelated pointers %r - %r' % (a, b))
        if op == 'and' and isinstance(a, Ptr) and isinstance(b, int):
            if a.obj is not None and b < a.obj.align and isinstance(a.off, int):
                return a.off & b
        if op == 'add':
            if isinstance(b, Ptr):
                a, b = b, a
            return Ptr(a.obj, self.ibin('add', a.off, b, w))
        if op == 'sub' and isinstance(a, Ptr):
            return Ptr(a.obj, self.ibin('sub', a.off, b, w))
        raise Unsupported('pointer arithmetic %s %r %r' % (op, a, b))

    def icmp(self, pred, a, b, w):
        if a is UNDEF or b is UNDEF:
            raise Alarm('uninit', 'comparison of uninitialised value')
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            return int(ICMP[pred](a, b))
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            return self.pcmp(pred, a, b)
        if isinstance(a, BitVal) or isinstance(b, BitVal):
            return bitcmp(self, pred, a, b, w)
        truth = FP[{'eq': 'eq', 'ne': 'ne'}.get(pred, pred[1:])]
        if pred[0] == 's':
            a, b = self.canon_s(a, w), self.canon_s(b, w)
        elif pred[0] == 'u':
            a, b = self.canon_u(a, w), self.canon_u(b, w)
        else:
            # eq/ne: compare modulo 2^w; same representation if possible
            a, b = self.canon_u(a, w), self.canon_u(b, w)
        return self.decide(P(a).add(P(b), -1), truth)

    def pcmp(self, pred, a, b):
        if isinstance(a, int):
            a = NULL if a == 0 else Ptr(None, a)
        if isinstance(b, int):
            b = NULL if b == 0 else Ptr(None, b)
        if isinstance(a, Fn) or isinstance(b, Fn):
            e = a == b
            return int(e if pred == 'eq' else not e)
        if a.obj is b.obj:
            return self.icmp(pred if pred in ('eq', 'ne') else pred, a.off, b.off, 64)
        if pred == 'eq':
            return 0
        if pred == 'ne':
            return 1
        if a.obj is None or b.obj is None:
            # null compares below everything
            an = 0 if a.obj is None else 1
            bn = 0 if b.obj is None else 1
            return int(ICMP[pred](an, bn))
        raise Alarm('ptr', 'ordering unrelated pointers %r %s %r' % (a, pred, b))

    # ---- memory -------------------------------------------------------
    def alloc(self, size, kind, name=None, align=16):
        o = Obj(name or '%s%d' % (kind, len(self.heap)), size, kind, align=align, loc=self.here())
        self.heap.append(o)
        return o

    def glob(self, name):
        o = self.globs.get(name)
        if o is not None:
            return o
        if name in self.prog.aliases:
            v = self.const(self.prog.aliases[name])
            return v
        g = self.prog.globals.get(name)
        if g is None:
            if name in self.prog.funcs:
                return Fn(name)
            raise Unsupported('global ' + name)
        o = Obj(name, g[2], 'global', const=bool(g[1]), align=g[3] or 1)
        p = Ptr(o, 0)
        self.globs[name] = p
        if g[5] is not None:
            c = o.const
            o.const = False
            self.initglobal(o, 0, g[4], g[5])
            o.const = c
        else:
            o.tag = 'extern'
        return p

    def initglobal(self, o, off, t, c):
        k = c[0]
        if k == 'z' or (k == 'n'):
            sz = tsize(t)
            self.zero(o, off, sz)
            return
        if k == 'u':
            return
        if k == 'a':
            if t[0] in 'AV':
                es = t[3] if t[0] == 'A' else tsize(t[2])
                for i, e in enumerate(c[1]):
                    self.initglobal(o, off + i * es, t[2], e)
            elif t[0] == 'S':
                for (fo, ft), e in zip(t[2], c[1]):
                    self.initglobal(o, off + fo, ft, e)
            return
        o.cells[off] = (tsize(t), self.const(c))

    def zero(self, o, off, sz):
        e = off + sz
        while off < e and off % 8:
            o.cells[off] = (1, 0)
            off += 1
        while off + 8 <= e:
            o.cells[off] = (8, 0)
            off += 8
        while off < e:
            o.cells[off] = (1, 0)
            off += 1

    def check(self, p, size, write):
        if p is UNDEF:
            raise Alarm('uninit', 'use of an uninitialised pointer')
        if not isinstance(p, Ptr):
            raise Unsupported('memory access through %r' % (p,))
        o = p.obj
        if o is None:
            raise Alarm('null', 'access through a null or integer pointer')
        if not o.alive:
            raise Alarm('dangling', '%s to %s after its lifetime ended' % ('write' if write else 'read', o.name))
        off = p.off
        if isinstance(off, int):
            off = off if off < (1 << 63) else off - (1 << 64)
            if off < 0 or (o.size is not None and off + size > o.size):
                raise Alarm('oob', '%s of %d bytes at offset %d of %s (size %s)' % (
                    'write' if write else 'read', size, off, o.name, o.size))
        if write and o.const:
            raise Alarm('constwrite', 'write to constant object %s' % o.name)
        return o, off

    def absoff(self, p, size, write):
        """abstract offset: bounds obligation, then enumerate"""
        o = p.obj
        off = self.canon_s(p.off, 64)
        if isinstance(off, int):
            return off
        lo, hi = self.rng(off)
        osz = o.size
        if 0 in () or self.feasible_neg(off) or (osz is not None and self.feasible_gt(off, osz - size)):
            raise Alarm('oob', '%s of %d bytes at offset %s of %s (size %s), offset range [%s,%s]' % (
                'write' if write else 'read', size, off, o.name, osz, lo, hi))
        return off

    def feasible_neg(self, off):
        return -1 in self.signs(off)

    def feasible_gt(self, off, lim):
        return 1 in self.signs(off.add(P(lim), -1))

    def load(self, p, t, size):
        if isinstance(p, Ptr) and isinstance(p.off, BitVal):
            return self.opts['lut'](self, p.obj, p.off, size)
        o, off = self.check(p, size, False)
        if not isinstance(off, int):
            off = self.absoff(p, size, False)
            if not isinstance(off, int):
                lo, hi = self.rng(off)
                if o.tag == 'opaque':
                    return self.opaque_load(o, off, t, size)
                off = self.concretize_off(off)
        k = t[0]
        if k == 'V':
            es = tsize(t[2])
            return Vec(self.loadcell(o, off + i * es, t[2], es) for i in range(t[1]))
        if k == 'S':
            return [self.loadcell(o, off + fo, ft, tsize(ft)) for fo, ft in t[2]]
        if k == 'A':
            return [self.loadcell(o, off + i * t[3], t[2], tsize(t[2])) for i in range(t[1])]
        return self.loadcell(o, off, t, size)

    def concretize_off(self, off):
        # off = c + s * x : enumerate x
        lin = [(m, c) for m, c in off.t.items() if m]
        if len(lin) == 1 and len(lin[0][0]) == 1 and lin[0][0][0][1] == 1:
            a, c = lin[0][0][0][0], lin[0][1]
            v = self.concretize(Poly.of(a), 300)
            r = c * v + off.cval()
            return int(r)
        return self.concretize(off, 300)

    def opaque_load(self, o, off, t, size):
        if t[0] == 'd' and self.opts.get('special_loads'):
            k = self.choose(4, lambda: 'double at offset %s of %s: finite, NaN, +inf, -inf' % (off, o.name))
            if k:
                return (NAN, INF, -INF)[k - 1]
        a = atom('mem', (o.name, P(off), size, t[0]), *(rngty(t, size)), isint=(t[0] == 'i'))
        return Poly.of(a)

    def loadcell(self, o, off, t, size):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
        else:
            if t[0] in ('S', 'A', 'V'):
                return self.load(Ptr(o, off), t, size)
            v = self.assemble(o, off, size)
        if v is UNDEF:
            if o.tag == 'opaque':
                r = self.opaque_load(o, off, t, size)
                o.cells[off] = (size, r)
                return r
            if o.tag == 'extern':
                raise Unsupported('load from external global ' + o.name)
            return UNDEF
        return self.retype(v, t, size)

    def retype(self, v, t, size):
        k = t[0]
        if k == 'i':
            if isinstance(v, float):
                return d2b(v) if size == 8 else struct.unpack('<I', struct.pack('<f', v))[0]
            if isinstance(v, int):
                return v & ((1 << t[1]) - 1)
            if isinstance(v, Poly):
                if size == 8 and not self.isintp(v):
                    return self.double_bits(v)
                return v
            return v
        if k == 'd':
            if isinstance(v, int):
                return b2d(v)
            if isinstance(v, Poly):
                a = v.single_atom()
                if a is not None and a.kind == 'bits':
                    return a.args[0]
                if v.is_const():
                    return v
                if self.isintp(v):
                    w = self.from_bytes(v)
                    return Poly.of(atom('unbits', (v,))) if w is None else w
            return v
        if k == 'f':
            if isinstance(v, int):
                return struct.unpack('<f', struct.pack('<I', v))[0]
            return v
        if k == 'p':
            if isinstance(v, int):
                return NULL if v == 0 else Ptr(None, v)
            return v
        if k == 'x':
            return v
        raise Unsupported('load type %s' % (t,))

    def double_bits(self, v):
        """the bit pattern of an abstract double, as one unknown or (option
        `bytes`) as the sum of its eight bytes"""
        if self.opts.get('bytes'):
            r = P(0)
            for i in range(8):
                r = r.add(Poly.of(atom('byte', (v, i), 0, 255, isint=True)).scale(1 << (8 * i)))
            return r
        return Poly.of(atom('bits', (v,), 0, 2**64 - 1, isint=True))

    def dbitop(self, op, a, b):
        """sign-bit arithmetic on the bit pattern of an abstract double"""
        k, p = (a, b) if isinstance(a, int) else (b, a)
        x = p.single_atom()
        v = x.args[0] if x is not None and x.kind == 'bits' else self.from_bytes(p)
        if v is None:
            return None
        S = 1 << 63
        if op in ('xor', 'or') and k == 0 or op == 'and' and k == 2 * S - 1:
            pass
        elif op == 'and' and k == 0:
            return 0
        elif op == 'and' and k == S - 1:
            v = fabs(self, v)
        elif op == 'and' and k == S:
            return S if self.decide(v, {-1}) else 0
        elif op == 'xor' and k == S:
            v = v.neg()
        elif op == 'or' and k == S:
            v = fabs(self, v).neg()
        else:
            return None
        return d2b(float(v.cval())) if v.is_const() else self.double_bits(v)

    def from_bytes(self, p):
        """inverse of double_bits: the double whose eight bytes p sums"""
        if len(p.t) != 8:
            return None
        who = None
        for m, c in p.t.items():
            if len(m) != 1 or m[0][1] != 1 or m[0][0].kind != 'byte':
                return None
            v, i = m[0][0].args
            if c != 1 << (8 * i) or (who is not None and v != who):
                return None
            who = v
        return who

    def isintp(self, p):
        return all(a.isint for a in p.atoms())

    def assemble(self, o, off, size):
        """read bytes [off, off+size) from cells of other shapes"""
        bs = []
        for i in range(size):
            bs.append(self.byteat(o, off + i))
        if any(b is None for b in bs):
            return UNDEF
        if all(isinstance(b, int) for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        b0 = bs[0]
        if isinstance(b0, tuple):
            v, sz = b0[0], b0[2]
            if b0[1] == 0 and sz == size and all(
                    isinstance(b, tuple) and b[1] == i and same(b[0], v) for i, b in enumerate(bs)):
                return v
            if size == 1:
                return self.bytesym(b0)
        if any(isinstance(b, BitVal) or isinstance(b, tuple) and isinstance(b[0], BitVal) for b in bs):
            out = ()
            for b in bs:
                if isinstance(b, tuple) and isinstance(b[0], BitVal):
                    out += tobits(b[0], 8 * b[2])[8 * b[1]:8 * b[1] + 8]
                else:
                    out += tobits(b, 8)
            return frombits(out)
        r = P(0)
        for i, b in enumerate(bs):
            if isinstance(b, tuple):
                b = self.bytesym(b)
            if not isinstance(b, (int, Poly)):
                raise Unsupported('partial load of %r' % (b,))
            r = r.add(P(b).scale(1 << (8 * i)))
        return unpi(r, size * 8)

    def bytesym(self, b):
        v, i, sz = b
        if isinstance(v, float):
            v = d2b(v)
        if isinstance(v, int):
            return (v >> (8 * i)) & 255
        if isinstance(v, Poly):
            if not self.isintp(v):
                if self.opts.get('bytes'):
                    return Poly.of(atom('byte', (v, i), 0, 255, isint=True))
                v = Poly.of(atom('bits', (v,), 0, 2**64 - 1, isint=True))
            v = self.canon_u(v, sz * 8)
            hi = self.ibin('lshr', v, 8 * i, sz * 8)
            return self.lowbits(hi, 8) if not isinstance(hi, int) else hi & 255
        raise Unsupported('byte of %r' % (v,))

    def byteat(self, o, off):
        for back in range(0, 16):
            c = o.cells.get(off - back)
            if c is not None and c[0] > back:
                v = c[1]
                if v is UNDEF:
                    return None
                if isinstance(v, int):
                    return (v >> (8 * back)) & 255
                if c[0] == 1:
                    return v
                return (v, back, c[0])
        return None

    def store(self, p, v, t, size):
        o, off = self.check(p, size, True)
        if not isinstance(off, int):
            off = self.absoff(p, size, True)
            if not isinstance(off, int):
                off = self.concretize_off(off)
        if self.store_hook:
            self.store_hook(self, o, off, size, v)
        k = t[0]
        if k == 'V':
            es = tsize(t[2])
            for i in range(t[1]):
                self.put(o, off + i * es, es, v[i] if v is not UNDEF else UNDEF)
            return
        if k in 'SA':
            fs = t[2] if k == 'S' else [(i * t[3], t[2]) for i in range(t[1])]
            for i, (fo, ft) in enumerate(fs):
                self.store(Ptr(o, off + fo), v[i] if v is not UNDEF else UNDEF, ft, tsize(ft))
            return
        self.put(o, off, size, v)

    def put(self, o, off, size, v):
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != size or size > 1:
            self.clear(o, off, size)
        cells[off] = (size, v)

    def clear(self, o, off, size):
        """remove cells overlapping the range, splitting partial overlaps"""
        cells = o.cells
        if size <= 64:
            rangeit = range(off - 15, off + size)
        else:
            rangeit = [k for k in list(cells) if off - 16 < k < off + size]
        for k in rangeit:
            c = cells.get(k)
            if c is None:
                continue
            if k + c[0] <= off:
                continue
            if k >= off and k + c[0] <= off + size:
                del cells[k]
                continue
            keep = []
            for b in range(k, k + c[0]):
                if b < off or b >= off + size:
                    x = self.byteat(o, b)
                    if isinstance(x, tuple):
                        if isinstance(x[0], (Ptr, Fn)):
                            x = UNDEF
                        else:
                            x = self.bytesym(x)
                    keep.append((b, UNDEF if x is None else x))
            del cells[k]
            for b, x in keep:
                cells[b] = (1, x)

    def memcpy(self, d, s, n):
        if not isinstance(n, int):
            n = self.canon_u(n, 64)
            if not isinstance(n, int):
                # bounds obligation on the source, then enumerate
                n = self.concretize(n, 300)
        if n == 0:
            return
        so, soff = self.check(s, n, False)
        do, doff = self.check(d, n, True)
        if not isinstance(soff, int):
            soff = self.absoff(s, n, False)
            if not isinstance(soff, int):
                if so.tag == 'opaque':
                    if not isinstance(doff, int):
                        raise Unsupported('memcpy abstract both')
                    self.clear(do, doff, n)
                    for i in range(0, n, 8):
                        sz = min(8, n - i)
                        do.cells[doff + i] = (sz, self.opaque_load(so, soff.add(P(i)), ['i', sz * 8], sz))
                    return
                soff = self.concretize_off(soff)
        if not isinstance(doff, int):
            doff = self.absoff(d, n, True)
            if not isinstance(doff, int):
                doff = self.concretize_off(doff)
        if self.store_hook:
            self.store_hook(self, do, doff, n, None)
        if so.tag == 'opaque':
            i = 0
            while i < n:
                if so.cells.get(soff + i) is None and self.byteat(so, soff + i) is None:
                    sz = 8 if n - i >= 8 and all(self.byteat(so, soff + i + j) is None for j in range(8)) else 1
                    self.loadcell(so, soff + i, ['i', 8 * sz], sz)
                    i += sz
                else:
                    i += 1
        # whole cells
        out = []
        end = soff + n
        k = soff
        cells = so.cells
        while k < end:
            c = cells.get(k)
            if c is not None and k + c[0] <= end:
                out.append((k - soff, c))
                k += c[0]
            else:
                b = self.byteat(so, k)
                if b is not None:
                    if isinstance(b, tuple):
                        b = self.bytesym(b)
                    out.append((k - soff, (1, b)))
                k += 1
        self.clear(do, doff, n)
        for rel, c in out:
            do.cells[doff + rel] = c

    def memset(self, d, v, n):
        if not isinstance(n, int):
            n = self.concretize(n, 300)
        if n == 0:
            return
        o, off = self.check(d, n, True)
        if not isinstance(off, int):
            off = self.concretize_off(self.absoff(d, n, True))
        if self.store_hook:
            self.store_hook(self, o, off, n, v)
        self.clear(o, off, n)
        if v == 0:
            self.zero(o, off, n)
        else:
            for i in range(n):
                o.cells[off + i] = (1, v)

    def cstr(self, p):
        s = []
        i = 0
        while True:
            c = self.load(Ptr(p.obj, p.off + i), ['i', 8], 1)
            if not isinstance(c, int):
                raise Unsupported('abstract string')
            if c == 0:
                return bytes(s)
            s.append(c)
            i += 1

    # ---- constants ----------------------------------------------------
    def const(self, c):
        k = c[0]
        if k == 'i':
            return c[1]
        if k == 'f':
            return b2d(c[1])
        if k == 'n':
            return NULL
        if k == 'u':
            if c[1][0] in ('S', 'A', 'V'):
                n = len(c[1][2]) if c[1][0] == 'S' else c[1][1]
                return [UNDEF] * n if c[1][0] != 'V' else Vec([UNDEF] * n)
            return UNDEF
        if k == 'z':
            return self.zeroval(c[1])
        if k == 'g':
            if c[1] in self.prog.funcs:
                return Fn(c[1])
            return self.glob(c[1])
        if k == 'ge':
            b = self.const(c[1])
            return Ptr(b.obj, b.off + c[2])
        if k == 'a':
            return Vec(self.const(x) for x in c[1])
        if k == 'ce':
            ops = [self.const(x) for x in c[2]]
            if c[1] in ('ptrtoint', 'inttoptr', 'bitcast'):
                return ops[0]
            if c[1] in ('sub', 'add'):
                return self.ibin(c[1], ops[0], ops[1], 64)
        if k == 'm':
            return None
        raise Unsupported('constant %s' % (c,))

    def zeroval(self, t):
        k = t[0]
        if k == 'i':
            return 0
        if k in 'df':
            return 0.0
        if k == 'p':
            return NULL
        if k == 'V':
            return Vec(self.zeroval(t[2]) for _ in range(t[1]))
        if k == 'S':
            return [self.zeroval(ft) for _, ft in t[2]]
        if k == 'A':
            return [self.zeroval(t[2]) for _ in range(t[1])]
        raise Unsupported('zero of %s' % t)

    # ---- calls --------------------------------------------------------
    def call(self, name, args, argtys=None):
        st = self.stubs.get(name)
        if st is not None:
            r = st(self, args)
            if r is not NotImplemented:
                return r
        f = self.prog.funcs.get(name)
        if f is None and name in self.prog.aliases:
            t = self.prog.aliases[name]
            return self.call(t[1], args, argtys)
        if name.startswith('llvm.'):
            return intrinsic(self, name, args)
        b = BUILTINS.get(name)
        if b is not None:
            return b(self, args)
        if f is None or f.decl:
            return extern(self, name, args, f)
        return self.run(f, args)

    def run(self, f, args):
        if not f.ready:
            self.prog.prepare(f)
        self.depth += 1
        if self.depth > self.opts.get('maxdepth', 150):
            raise Budget('call depth')
        fr = Frame()
        fr.f = f
        fr.allocas = []
        fr.line = None
        r = list(args) + [None] * (f.nval - len(args))
        r.extend(self.const(c) if c[0] not in ('m', 'asm') else None for c in f.consts)
        fr.r = r
        self.stack.append(fr)
        if self.cov is not None:
            self.cov.add(f.name)
        try:
            blocks = f.blocks
            cur, prev = 0, -1
            while True:
                blk = blocks[cur]
                i = 0
                # phis in parallel
                if blk[0][1] == 'phi':
                    vals = []
                    while blk[i][1] == 'phi':
                        ins = blk[i]
                        vals.append((ins[2], r[ins[5][prev]]))
                        i += 1
                    for k, v in vals:
                        r[k] = v
                n = len(blk)
                nxt = None
                while i < n:
                    h, op, rid, ty, loc, a = blk[i]
                    i += 1
                    if loc:
                        fr.line = loc
                    self.steps += 1
                    if self.steps > self.maxsteps:
                        raise Alarm('nontermination', 'no result after %d abstract steps (bound is far above any path of the '
                                    'reviewed tree)' % self.maxsteps)
                    if h is not None:
                        r[rid] = h(self, fr, r, ty, a)
                        continue
                    if op == 'br':
                        if len(a) == 1:
                            nxt = a[0]
                        else:
                            c = r[a[0]]
                            if c is UNDEF:
                                raise Alarm('uninit', 'branch on an uninitialised value')
                            if not isinstance(c, int):
                                c = self.icmp('ne', c, 0, 1)
                            nxt = a[1] if c else a[2]
                        break
                    if op == 'call':
                        r[rid] = self.docall(fr, r, a)
                        continue
                    if op == 'ret':
                        return r[a[0]] if a else None
                    if op == 'invoke':
                        try:
                            r[rid] = self.docall(fr, r, a)
                            nxt = a[4]
                        except CxxThrow as e:
                            self.exc.append(e)
                            nxt = a[5]
                        break
                    if op == 'switch':
                        c = r[a[0]]
                        if c is UNDEF:
                            raise Alarm('uninit', 'switch on an uninitialised value')
                        if isinstance(c, int):
                            nxt = a[2].get(c, a[1])
                        else:
                            nxt = a[1]
                            for v, t in a[2].items():
                                if self.icmp('eq', c, v, a[3]):
                                    nxt = t
                                    break
                        break
                    if op == 'landingpad':
                        e = self.exc[-1]
                        r[rid] = [Ptr(e.obj, 0), self.lpsel(e, a), e]
                        if r[rid][1] is None:
                            # no clause matches and no cleanup
                            self.exc.pop()
                            raise e
                        continue
                    if op == 'resume':
                        e = self.exc.pop()
                        raise e
                    if op == 'unreachable':
                        raise Alarm('unreachable', 'control reaches an unreachable point')
                    raise Unsupported('instruction ' + op)
                prev, cur = cur, nxt
        except Alarm as e:
            if e.where is None:
                e.where = self.where()
            raise
        except (Unsupported, Budget) as e:
            if not hasattr(e, 'where'):
                e.where = self.where()
                e.args = (str(e) + ' at ' + ' < '.join(e.where[:4]),)
            raise
        finally:
            self.depth -= 1
            self.stack.pop()
            for o in fr.allocas:
                o.alive = False

    def docall(self, fr, r, a):
        callee = a[0]
        args = [r[x] for x in a[1]]
        for i, bv in enumerate(a[3]):
            if bv:
                # byval copy
                o = self.alloc(bv, 'byval')
                fr.allocas.append(o)
                self.memcpy(Ptr(o, 0), args[i], bv)
                args[i] = Ptr(o, 0)
        if not isinstance(callee, str):
            fp = r[callee]
            if isinstance(fp, Fn):
                callee = fp.name
            else:
                if fp is UNDEF:
                    raise Alarm('uninit', 'call through an uninitialised pointer')
                if isinstance(fp, Ptr) and fp.obj is None:
                    raise Alarm('null', 'call through null')
                raise Unsupported('indirect call to %r' % (fp,))
        return self.call(callee, args)

    # ---- exceptions ---------------------------------------------------
    def tiname(self, p):
        return p.obj.name if p.obj is not None else None

    def lpsel(self, e, a):
        cleanup, clauses = a
        for kind, c in clauses:
            if kind == 1:
                t = self.const(c)
                if t == NULL or self.derives(e.tinfo, t.obj.name):
                    return self.typeid(t)
            else:
                # filter (noexcept spec): treat as terminate
                return -1
        return 0 if cleanup else None

    def typeid(self, t):
        n = t.obj.name if t.obj is not None else ''
        return self.tids.setdefault(n, len(self.tids) + 1)

    def derives(self, d, b):
        return b in typeinfo_bases(self, d)

    # ---- top level ----------------------------------------------------
    def ret_scalar(self, v):
        return v


def typeinfo_bases(m, name, acc=None):
    """all typeinfo symbols `name` derives from, with offsets; reads the
    __class_type_info initialisers"""
    acc = {} if acc is None else acc
    acc[name] = acc.get(name, 0)
    g = m.prog.globals.get(name)
    if g is None or g[5] is None:
        for b in STD_BASES.get(name, ()):
            typeinfo_bases(m, b, acc)
        return acc
    init = g[5][1]
    vt = init[0]
    while vt[0] in ('ge',):
        vt = vt[1]
    if '__si_class_type_info' in vt[1]:
        typeinfo_bases(m, init[2][1], acc)
    elif '__vmi_class_type_info' in vt[1]:
        for e in init[4:]:
            if e[0] == 'g':
                typeinfo_bases(m, e[1], acc)
    return acc


STD_BASES = {
    '_ZTISt13runtime_error': ('_ZTISt9exception',), '_ZTISt11logic_error': ('_ZTISt9exception',),
    '_ZTISt16invalid_argument': ('_ZTISt11logic_error',), '_ZTISt12out_of_range': ('_ZTISt11logic_error',),
    '_ZTISt12domain_error': ('_ZTISt11logic_error',), '_ZTISt12length_error': ('_ZTISt11logic_error',),
    '_ZTISt14overflow_error': ('_ZTISt13runtime_error',), '_ZTISt11range_error': ('_ZTISt13runtime_error',),
    '_ZTISt15underflow_error': ('_ZTISt13runtime_error',),
    '_ZTISt9bad_alloc': ('_ZTISt9exception',), '_ZTISt8bad_cast': ('_ZTISt9exception',),
    '_ZTISt20bad_array_new_length': ('_ZTISt9bad_alloc',),
}


def same(a, b):
    return a is b or a == b


def rngty(t, size):
    if t[0] == 'i':
        return (0, (1 << (8 * size)) - 1)
    return (-INF, INF)


def join_mem(p):
    """little-endian sum of eight consecutive unknown bytes: the unknown word"""
    base = None
    for m, c in p.t.items():
        if len(m) != 1 or m[0][1] != 1 or m[0][0].kind != 'mem' or m[0][0].args[2] != 1 or c.denominator != 1:
            return p
        n, off, _, k = m[0][0].args
        i = c.numerator.bit_length() - 1
        if c != 1 << i or i % 8 or k != 'i':
            return p
        b = (n, off.add(P(i // 8), -1))
        if base is not None and b != base:
            return p
        base = b
    return Poly.of(atom('mem', (base[0], base[1], 8, 'i'), 0, 2**64 - 1, isint=True))


def pw(x, e):
    return x if e == 1 else x ** e


def xm(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


def canon(p):
    """canonical key of p up to a non-zero factor; second value: sign flip"""
    m = min(p.t, key=lambda k: (len(k) == 0, [(a.id, e) for a, e in k]))
    c = p.t[m]
    if c == 1:
        return p, False
    return p.scale(1 / abs(c)) if c > 0 else p.scale(1 / c), c < 0


def unp(p):
    return p


def unp2(p):
    return int(p.cval()) if p.is_const() else p


def unpi(p, w):
    if p.is_const():
        c = p.cval()
        if c.denominator == 1:
            return int(c) & ((1 << w) - 1)
    return p


def sgn(v, w):
    if isinstance(v, int) and v >> (w - 1):
        return v - (1 << w)
    return v


FP = {'eq': {0}, 'ne': {-1, 1}, 'gt': {1}, 'ge': {0, 1}, 'lt': {-1}, 'le': {-1, 0}}
TR = {frozenset(v): {'eq': '==', 'ne': '!=', 'gt': '>', 'ge': '>=', 'lt': '<', 'le': '<='}[k] for k, v in FP.items()}
ICMP = {
    'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
    'ugt': lambda a, b: a > b, 'uge': lambda a, b: a >= b, 'ult': lambda a, b: a < b, 'ule': lambda a, b: a <= b,
    'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b, 'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b,
}
FNRANGE = {'sqrt': (0, INF), 'sin': (-1, 1), 'cos': (-1, 1), 'asin': (Fraction(-158, 100), Fraction(158, 100)),
           'acos': (0, Fraction(315, 100)), 'atan2': (Fraction(-315, 100), Fraction(315, 100)),
           'atan': (Fraction(-158, 100), Fraction(158, 100)), 'abs': (0, INF), 'hypot': (0, INF)}


def cfbin(op, a, b):
    try:
        if op == 'fadd':
            return a + b
        if op == 'fsub':
            return a - b
        if op == 'fmul':
            return a * b
        if op == 'fdiv':
            if b == 0:
                if a == 0 or a != a:
                    return NAN
                return math.copysign(INF, a) * math.copysign(1, b)
            return a / b
        if op == 'frem':
            return math.fmod(a, b)
    except (OverflowError, ValueError):
        return NAN
    raise Unsupported(op)


def cibin(op, a, b, w):
    M = (1 << w) - 1
    if op == 'add':
        return (a + b) & M
    if op == 'sub':
        return (a - b) & M
    if op == 'mul':
        return (a * b) & M
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op == 'shl':
        return (a << b) & M if b < w else UNDEF
    if op == 'lshr':
        return a >> b if b < w else UNDEF
    if op == 'ashr':
        return (sgn(a, w) >> b) & M if b < w else UNDEF
    if op in ('udiv', 'urem', 'sdiv', 'srem'):
        if b == 0:
            raise Alarm('div0', 'integer division by zero')
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        a, b = sgn(a, w), sgn(b, w)
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return (q if op == 'sdiv' else a - q * b) & M
    raise Unsupported(op)


# ---- bit-provenance values -------------------------------------------------
class BitVal:
    """an integer as a tuple of bits, least significant first; a bit is 0, 1
    or a name (the input bit it is a copy of)"""
    __slots__ = ('b',)

    def __init__(self, bits):
        self.b = tuple(bits)

    def __eq__(self, o):
        return isinstance(o, BitVal) and self.b == o.b

    def __hash__(self):
        return hash(self.b)

    def __repr__(self):
        return 'bits' + repr(self.b)


def tobits(v, w):
    if isinstance(v, BitVal):
        return (v.b + (0,) * w)[:w]
    if isinstance(v, int):
        return tuple((v >> i) & 1 for i in range(w))
    raise Unsupported('bits of %r' % (v,))


def frombits(b):
    if all(isinstance(x, int) for x in b):
        return sum(x << i for i, x in enumerate(b))
    return BitVal(b)


def bitpoly(v):
    """the integer with these bits, as one unknown"""
    if isinstance(v, BitVal):
        b = v.b
        while b and b[-1] == 0:
            b = b[:-1]
        return Poly.of(atom('bitint', (b,), 0, (1 << len(b)) - 1, isint=True))
    return v


def bitbin(m, op, a, b, w):
    if isinstance(a, Poly) or isinstance(b, Poly):
        return m.ibin(op, bitpoly(a), bitpoly(b), w)
    if op in ('shl', 'lshr', 'ashr'):
        if not isinstance(b, int):
            b = frombits(tuple(m.bitval(x) for x in tobits(b, w)))
        x = tobits(a, w)
        if b >= w:
            return UNDEF
        if op == 'shl':
            return frombits((0,) * b + x[:w - b])
        return frombits(x[b:] + ((x[-1],) if op == 'ashr' else (0,)) * b)
    x, y = tobits(a, w), tobits(b, w)
    if op == 'and':
        return frombits(tuple(bitand(m, p, q) for p, q in zip(x, y)))
    if op == 'or':
        return frombits(tuple(bitor(m, p, q) for p, q in zip(x, y)))
    if op == 'xor':
        return frombits(tuple(bitxor(m, p, q) for p, q in zip(x, y)))
    if op == 'add':
        if all(p == 0 or q == 0 for p, q in zip(x, y)):
            return frombits(tuple(q if p == 0 else p for p, q in zip(x, y)))
    if m.opts.get('bitpoly'):
        return m.ibin(op, bitpoly(frombits(x)), bitpoly(frombits(y)), w)
    # general: split on the bits involved until concrete
    xv = sum(m.bitval(p) << i for i, p in enumerate(x))
    yv = sum(m.bitval(p) << i for i, p in enumerate(y))
    return cibin(op, xv, yv, w)


def bitand(m, p, q):
    if p == 0 or q == 0:
        return 0
    if p == 1:
        return q
    if q == 1 or p == q:
        return p
    if m.opts.get('bitlazy'):
        return ('and', frozenset((p, q)))
    return m.bitval(p) and q


def bitor(m, p, q):
    if p == 1 or q == 1:
        return 1
    if p == 0:
        return q
    if q == 0 or p == q:
        return p
    if m.opts.get('bitlazy'):
        f = frozenset()
        for x in (p, q):
            f |= x[1] if isinstance(x, tuple) and x[0] == 'or' else {x}
        return ('or', f)
    return 1 if m.bitval(p) else q


def bitxor(m, p, q):
    if p == 0:
        return q
    if q == 0:
        return p
    if p == q:
        return 0
    if isinstance(p, int):
        return 1 - m.bitval(q)
    if isinstance(q, int):
        return 1 - m.bitval(p)
    return m.bitval(p) ^ m.bitval(q)


def bitval(self, p):
    """value of one bit: split the partition when it is an input bit"""
    if isinstance(p, int):
        return p
    v = self.bounds.get(('bit', p))
    if v is None:
        v = self.choose(2, 'bit %s' % (p,))
        self.bounds[('bit', p)] = v
    return v


Machine.bitval = bitval


def bitcmp(m, pred, a, b, w):
    if isinstance(a, Poly) or isinstance(b, Poly):
        return m.icmp(pred, bitpoly(a), bitpoly(b), w)
    x, y = tobits(a, w), tobits(b, w)
    if pred in ('eq', 'ne') and any(isinstance(p, int) and isinstance(q, int) and p != q for p, q in zip(x, y)):
        return int(pred == 'ne')
    if pred == 'ult' or pred == 'ugt' or pred == 'ule' or pred == 'uge':
        # decide by ranges
        lo = lambda z: sum((q if isinstance(q, int) else 0) << i for i, q in enumerate(z))
        hi = lambda z: sum((q if isinstance(q, int) else 1) << i for i, q in enumerate(z))
        t = ICMP[pred]
        al, ah, bl, bh = lo(x), hi(x), lo(y), hi(y)
        if pred in ('ult', 'ule'):
            if t(ah, bl):
                return 1
            if not t(al, bh):
                return 0
        else:
            if t(al, bh):
                return 1
            if not t(ah, bl):
                return 0
    if m.opts.get('bitpoly'):
        return m.icmp(pred, bitpoly(frombits(x)), bitpoly(frombits(y)), w)
    xv = sum(m.bitval(p) << i for i, p in enumerate(x))
    yv = sum(m.bitval(p) << i for i, p in enumerate(y))
    if pred[0] == 's':
        xv, yv = sgn(xv, w), sgn(yv, w)
    return int(ICMP[pred](xv, yv))


# ---- instruction handlers --------------------------------------------------
def h_gep(m, fr, r, ty, a):
    b = r[a[0]]
    off = a[1]
    if isinstance(b, Vec):
        raise Unsupported('vector gep')
    if b is UNDEF:
        return UNDEF
    if not isinstance(b, Ptr):
        if isinstance(b, Fn):
            return b
        raise Unsupported('gep on %r' % (b,))
    o = b.off
    if a[2]:
        for x, w, s in a[2]:
            v = r[x]
            if v is UNDEF:
                return UNDEF
            if isinstance(v, int):
                off += sgn(v, w) * s
            elif isinstance(v, BitVal):
                if m.opts.get('lut') and b.obj is not None and b.obj.const and s == 1 and b.off == 0 and off == 0 and len(a[2]) == 1:
                    return Ptr(b.obj, BitVal(tobits(v, w)))
                v = frombits(tuple(m.bitval(q) for q in tobits(v, w)))
                off += sgn(v, w) * s
            else:
                v = m.canon_s(v, w)
                if isinstance(v, int):
                    off += v * s
                else:
                    off = P(off).add(v.scale(s))
    if isinstance(o, int) and isinstance(off, int):
        return Ptr(b.obj, o + off)
    q = P(o).add(P(off))
    return Ptr(b.obj, int(q.cval()) if q.is_const() else q)


def h_alloca(m, fr, r, ty, a):
    n = r[a[1]]
    o = Obj('alloca@' + fr.f.dem.split('(')[0], a[0] * n, 'stack', align=a[2], loc=fr.line)
    fr.allocas.append(o)
    return Ptr(o, 0)


def h_load(m, fr, r, ty, a):
    p = r[a[0]]
    if isinstance(p, Ptr) and isinstance(p.off, int) and p.obj is not None:
        o = p.obj
        if o.alive:
            c = o.cells.get(p.off)
            if c is not None and c[0] == a[2] and a[1] <= o.align:
                v = c[1]
                k = ty[0]
                if (k == 'd' and isinstance(v, float)) or (k == 'i' and isinstance(v, int) and ty[1] == 8 * c[0]) or (
                        k == 'p' and isinstance(v, (Ptr, Fn))):
                    if a[1] > 1 and a[1] > 8 and m.opts.get('align') and (p.off % a[1] or o.align % a[1]):
                        raise Alarm('align', 'load needs alignment %d of %s+%d (align %d)' % (a[1], o.name, p.off, o.align))
                    return v
    if a[1] > 8 and m.opts.get('align') and isinstance(p, Ptr) and p.obj is not None and isinstance(p.off, int):
        if p.off % a[1] or p.obj.align % a[1]:
            raise Alarm('align', 'load needs alignment %d, object %s+%d guarantees less (align %d)' % (
                a[1], p.obj.name, p.off, p.obj.align))
    return m.load(p, ty, a[2])


def h_store(m, fr, r, ty, a):
    m.store(r[a[1]], r[a[0]], a[2], a[4])


def vecmap(f, *vs):
    return Vec(f(*x) for x in zip(*vs))


def h_icmp(m, fr, r, ty, a):
    x, y = r[a[2]], r[a[3]]
    t = a[1]
    if t[0] == 'V':
        w = t[2][1] if t[2][0] == 'i' else 64
        return vecmap(lambda p, q: m.icmp(a[0], p, q, w), x, y)
    return m.icmp(a[0], x, y, t[1] if t[0] == 'i' else 64)


def h_fcmp(m, fr, r, ty, a):
    x, y = r[a[2]], r[a[3]]
    if len(a) > 4 and m.opts.get('minmax') and isinstance(x, (Poly, float)) and isinstance(y, (Poly, float)) and a[0][0] in 'ou' \
            and a[0][1:] in ('lt', 'le', 'gt', 'ge') and not any(isinstance(z, float) and (z != z or z in (INF, -INF)) for z in (x, y)):
        return ('mm', a[0][1] == 'g', x, y)
    if a[1][0] == 'V':
        return vecmap(lambda p, q: m.fcmp(a[0], p, q), x, y)
    return m.fcmp(a[0], x, y)


def mk_ibin(op):
    def h(m, fr, r, ty, a):
        x, y = r[a[0]], r[a[1]]
        if isinstance(x, int) and isinstance(y, int):
            return cibin(op, x, y, ty[1])
        if ty[0] == 'V':
            if x is UNDEF or y is UNDEF:
                return Vec([UNDEF] * ty[1])
            return vecmap(lambda p, q: vibin(m, op, p, q, ty[2][1]), x, y)
        return m.ibin(op, x, y, ty[1])
    return h


def mk_nsw(op):
    """signed arithmetic that is undefined when it overflows"""
    plain = mk_ibin(op)

    def h(m, fr, r, ty, a):
        if m.opts.get('nsw'):
            x, y = r[a[0]], r[a[1]]
            if x is not UNDEF and y is not UNDEF and not isinstance(x, Ptr) and not isinstance(y, Ptr):
                p, q = P(m.canon_s(x, ty[1])), P(m.canon_s(y, ty[1]))
                v = p.add(q) if op == 'add' else p.add(q, -1) if op == 'sub' else p.mul(q) if op == 'mul' else None
                if v is not None:
                    lim = 1 << (ty[1] - 1)
                    lo, hi = m.rng(v)
                    if lo < -lim and m.signs(v.add(P(lim))) & {-1} or hi >= lim and m.signs(v.add(P(1 - lim))) & {1}:
                        raise Alarm('overflow', 'signed overflow of %s %s %s' % (p, op, q))
        return plain(m, fr, r, ty, a)
    return h


def vibin(m, op, p, q, w):
    # bitwise ops on float lanes reinterpreted as integers
    return m.ibin(op, p, q, w)


def mk_fbin(op):
    def h(m, fr, r, ty, a):
        x, y = r[a[0]], r[a[1]]
        if ty[0] == 'V':
            return vecmap(lambda p, q: m.fbin(op, p, q), x, y)
        v = m.fbin(op, x, y)
        if ty[0] == 'f' and isinstance(v, float):
            v = struct.unpack('<f', struct.pack('<f', v))[0]
        return v
    return h


def fneg(v):
    if v is UNDEF:
        return v
    return -v if isinstance(v, float) else v.neg()


def h_fneg(m, fr, r, ty, a):
    v = r[a[0]]
    if isinstance(v, Vec):
        return vecmap(fneg, v)
    return fneg(v)


def h_select(m, fr, r, ty, a):
    c = r[a[0]]
    if isinstance(c, Vec):
        return Vec((x if k else y) for k, x, y in zip(c, r[a[1]], r[a[2]]))
    if c is UNDEF:
        raise Alarm('uninit', 'select on an uninitialised value')
    if isinstance(c, tuple) and c[0] == 'mm':
        # x < y ? x : y is a minimum, x > y ? x : y a maximum
        same = a[1] != a[2] and r[a[1]] is c[2] or r[a[1]] == c[2]
        return minmax(m, c[1] == same, c[2], c[3])
    if not isinstance(c, int):
        c = m.icmp('ne', c, 0, 1)
    return r[a[1]] if c else r[a[2]]


def castw(t):
    return t[1] if t[0] == 'i' else 64


def fp2int(m, v, w, signed):
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    if isinstance(v, float):
        if v != v or v in (INF, -INF):
            m.note('fptoint-nan')
            if m.opts.get('nsw'):
                raise Alarm('conversion', 'conversion of %s to an integer' % v)
            return UNDEF
        k = int(v)
        if k < lo or k > hi:
            m.note('fptoint-range')
            if m.opts.get('nsw'):
                raise Alarm('conversion', 'conversion of %s to an integer that cannot hold it' % v)
            return UNDEF
        return k & ((1 << w) - 1)
    if m.isintp(v) and all(c.denominator == 1 for c in v.t.values()):
        return v
    l, h = m.rng(v)
    if (h < lo or l > hi) and m.opts.get('nsw'):
        raise Alarm('conversion', 'conversion of a value from %s to %s to an integer that cannot hold it' % (l, h))
    if math.isfinite(l) and math.isfinite(h) and math.trunc(l) == math.trunc(h) and lo <= l and h <= hi:
        return math.trunc(l) & ((1 << w) - 1)
    if l < 0 and m.opts.get('poly') and -1 not in m.signs(v):
        l = 0
    if h > hi and m.opts.get('poly') and m.signs(v.add(P(-hi - 1))) <= {-1}:
        h = hi
    return Poly.of(m.datom('trunc', (v,), math.trunc(l) if l not in (INF, -INF) else -(1 << (w - 1)),
                        math.trunc(h) if h not in (INF, -INF) else (1 << (w - 1)) - 1, isint=True))


def mk_cast(op):
    def one(m, v, st, dt):
        if v is UNDEF:
            return UNDEF
        if op == 'trunc':
            w = dt[1]
            if isinstance(v, int):
                return v & ((1 << w) - 1)
            if isinstance(v, BitVal):
                return frombits(tobits(v, w))
            if isinstance(v, Ptr):
                if v.obj is not None and isinstance(v.off, int) and (1 << w) <= v.obj.align:
                    return v.off & ((1 << w) - 1)
                raise Unsupported('trunc of pointer')
            if w == 1:
                u = m.lowbits(v, 1)
                return u if isinstance(u, int) else m.decide(P(u), {1})
            return m.lowbits(v, w) if m.opts.get('bytes') or m.opts.get('lowexact') else v
        if op == 'zext':
            if isinstance(v, int):
                return v
            if isinstance(v, BitVal):
                return v
            return m.canon_u(v, st[1])
        if op == 'sext':
            if isinstance(v, int):
                return sgn(v, st[1]) & ((1 << dt[1]) - 1)
            if isinstance(v, BitVal):
                b = tobits(v, st[1])
                return frombits(b + (b[-1],) * (dt[1] - st[1]))
            return m.canon_s(v, st[1])
        if op in ('bitcast', 'addrspacecast'):
            if st[0] == 'i' and dt[0] == 'd':
                return m.retype(v, dt, 8)
            if st[0] == 'd' and dt[0] == 'i':
                return m.retype(v, dt, 8)
            return v
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and v.obj is None and isinstance(v.off, int):
                return v.off
            return v
        if op == 'inttoptr':
            if isinstance(v, int):
                return NULL if v == 0 else Ptr(None, v)
            return v
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, int):
                return float(sgn(v, st[1]) if op == 'sitofp' else v)
            if isinstance(v, BitVal) and m.opts.get('bitpoly') and (op == 'uitofp' or tobits(v, st[1])[-1] == 0):
                return bitpoly(frombits(tobits(v, st[1])))
            if isinstance(v, BitVal):
                v = frombits(tuple(m.bitval(q) for q in tobits(v, st[1])))
                return float(sgn(v, st[1]) if op == 'sitofp' else v)
            return m.canon_s(v, st[1]) if op == 'sitofp' else m.canon_u(v, st[1])
        if op in ('fptosi', 'fptoui'):
            return fp2int(m, v, dt[1], op == 'fptosi')
        if op == 'fptrunc':
            if isinstance(v, float):
                return struct.unpack('<f', struct.pack('<f', v))[0]
            return v
        if op == 'fpext':
            return v
        raise Unsupported(op)

    def h(m, fr, r, ty, a):
        v, st = r[a[0]], a[1]
        if ty[0] == 'V' or st[0] == 'V':
            if op == 'bitcast':
                return vbitcast(m, v, st, ty)
            return Vec(one(m, x, st[2], ty[2]) for x in v)
        return one(m, v, st, ty)
    return h


def vbitcast(m, v, st, dt):
    """reinterpret between vector shapes of equal total size"""
    if st[0] == 'V' and dt[0] == 'V' and st[1] == dt[1]:
        return Vec(m.retype(x, dt[2], tsize(dt[2])) if x is not UNDEF else UNDEF for x in v)
    if st[0] == 'V' and dt[0] == 'V' and st[2] == ['i', 64] and dt[2] == ['i', 32] and any(isinstance(x, Poly) for x in v):
        r = []
        for x in v:
            if isinstance(x, Poly):
                l, h = m.rng(x)
                if not (l >= 0 and h < 1 << 64):
                    x = m.canon_u(x, 64)
            if isinstance(x, Poly):
                k = Fraction(1 << 32)
                hi = Poly({z: Fraction(math.floor(c / k)) for z, c in x.t.items() if c >= k})
                lo = x.add(hi.scale(k), -1)
                if all(m.rng(q)[0] >= 0 and m.rng(q)[1] < 1 << 32 for q in (lo, hi)):
                    r += [unpi(lo, 32), unpi(hi, 32)]
                    continue
            if isinstance(x, Poly):
                raise Unsupported('lanes of %r' % (x,))
            else:
                b = tobits(x, 64)
                r += [frombits(b[:32]), frombits(b[32:])]
        return Vec(r)
    if st[0] == 'V' and dt[0] == 'V' and st[2] == ['i', 32] and dt[2] == ['i', 64] and any(isinstance(x, Poly) for x in v) \
            and all(isinstance(x, (int, Poly)) for x in v):
        u = [m.canon_u(P(x), 32) for x in v]
        return Vec(unpi(P(u[i]).add(P(u[i + 1]).scale(1 << 32)), 64) for i in range(0, len(u), 2))
    o = Obj('bitcast', 64, 'stack')
    m_hook, m.store_hook = m.store_hook, None
    m.store(Ptr(o, 0), v, st, tsize(st))
    res = m.load(Ptr(o, 0), dt, tsize(dt))
    m.store_hook = m_hook
    return res


def h_extractvalue(m, fr, r, ty, a):
    v = r[a[0]]
    for i in a[1]:
        v = v[i] if v is not UNDEF else UNDEF
    return v


def h_insertvalue(m, fr, r, ty, a):
    agg, v, idx = r[a[0]], r[a[1]], a[2]

    def ins(x, idx, t):
        n = len(t[2]) if t[0] == 'S' else t[1]
        x = list(x) if x is not UNDEF else [UNDEF] * n
        while len(x) < n:
            x.append(UNDEF)
        if len(idx) == 1:
            x[idx[0]] = v
        else:
            st = t[2][idx[0]][1] if t[0] == 'S' else t[2]
            x[idx[0]] = ins(x[idx[0]], idx[1:], st)
        return x
    return ins(agg, idx, ty)


def h_extractelement(m, fr, r, ty, a):
    v, i = r[a[0]], r[a[1]]
    return v[i]


def h_insertelement(m, fr, r, ty, a):
    v = list(r[a[0]]) if r[a[0]] is not UNDEF else [UNDEF] * ty[1]
    v[r[a[2]]] = r[a[1]]
    return Vec(v)


def h_shuffle(m, fr, r, ty, a):
    n = a[3]
    x = r[a[0]] if r[a[0]] is not UNDEF else [UNDEF] * n
    y = r[a[1]] if r[a[1]] is not UNDEF else [UNDEF] * n
    z = list(x) + list(y)
    return Vec(UNDEF if i < 0 else z[i] for i in a[2])


def h_freeze(m, fr, r, ty, a):
    return r[a[0]]


def h_atomicrmw(m, fr, r, ty, a):
    p, v = r[a[1]], r[a[2]]
    old = m.load(p, ty, a[3])
    if a[0] == 'add':
        m.store(p, m.ibin('add', old, v, ty[1]), ty, a[3])
    elif a[0] == 'sub':
        m.store(p, m.ibin('sub', old, v, ty[1]), ty, a[3])
    else:
        raise Unsupported('atomicrmw ' + a[0])
    return old


HANDLERS = {
    'getelementptr': h_gep, 'alloca': h_alloca, 'load': h_load, 'store': h_store, 'icmp': h_icmp, 'fcmp': h_fcmp,
    'fneg': h_fneg, 'select': h_select, 'extractvalue': h_extractvalue, 'insertvalue': h_insertvalue,
    'extractelement': h_extractelement, 'insertelement': h_insertelement, 'shufflevector': h_shuffle,
    'freeze': h_freeze, 'atomicrmw': h_atomicrmw,
}
for _o in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
    HANDLERS[_o] = mk_ibin(_o)
for _o in ('add', 'sub', 'mul', 'shl'):
    HANDLERS[_o + '.nsw'] = mk_nsw(_o)
for _o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
    HANDLERS[_o] = mk_fbin(_o)
for _o in CASTS:
    HANDLERS[_o] = mk_cast(_o)


def note(self, what):
    self.notes.append((what, self.here()))


Machine.note = note
Machine.notes = property(lambda self: self.__dict__.setdefault('_notes', []))


# ---- intrinsics and library models ------------------------------------------
def intrinsic(m, name, a):
    n = name[5:]
    if n.startswith(('dbg.', 'assume', 'experimental.noalias', 'donothing', 'prefetch')):
        return None
    if n.startswith('lifetime.start'):
        p = a[1]
        if isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'stack':
            p.obj.alive = True
            p.obj.cells = {}
        return None
    if n.startswith('lifetime.end'):
        p = a[1]
        if isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'stack':
            p.obj.alive = False
        return None
    if n.startswith('memcpy') or n.startswith('memmove'):
        m.memcpy(a[0], a[1], a[2])
        return None
    if n.startswith('memset'):
        m.memset(a[0], a[1], a[2])
        return None
    if n.startswith('expect'):
        return a[0]
    if n.startswith(('is.constant', 'objectsize')):
        return 0
    if n.startswith('eh.typeid.for'):
        return m.typeid(a[0])
    if n.startswith(('umax', 'umin', 'smax', 'smin')):
        w = int(n.split('.i')[1])
        pred = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[n[:4]]
        return a[0] if m.icmp(pred, a[0], a[1], w) else a[1]
    if n.startswith('abs.'):
        w = int(n.split('.i')[1])
        return m.ibin('sub', 0, a[0], w) if m.icmp('slt', a[0], 0, w) else a[0]
    if n.startswith('fabs'):
        return fl(m, a[0], fabs)
    if n.startswith(('sqrt', 'floor', 'ceil', 'trunc', 'sin', 'cos', 'rint', 'nearbyint', 'round')):
        return fl(m, a[0], lambda mm, v: mathfn(mm, n.split('.')[0], v))
    if n.startswith('pow'):
        return mathfn(m, 'pow', a[0], a[1])
    if n.startswith('is.fpclass'):
        return fpclass(m, a[0], a[1])
    if n.startswith('copysign'):
        x = fabs(m, a[0])
        if isinstance(a[1], float):
            return x if math.copysign(1, a[1]) > 0 else fneg(x)
        return fneg(x) if m.decide(P(a[1]), {-1}) else x
    if n.startswith(('minnum', 'maxnum')):
        if m.fcmp('uno', a[0], a[0]):
            return a[1]
        if m.fcmp('uno', a[1], a[1]):
            return a[0]
        pr = 'olt' if n.startswith('min') else 'ogt'
        return a[0] if m.fcmp(pr, a[0], a[1]) else a[1]
    if n.startswith('fmuladd') or n.startswith('fma'):
        return m.fbin('fadd', m.fbin('fmul', a[0], a[1]), a[2])
    if n.startswith('ctlz'):
        w = int(n.split('.i')[1])
        v = a[0]
        if isinstance(v, int):
            return w - v.bit_length()
        if isinstance(v, BitVal):
            b = tobits(v, w)
            k = w - 1
            while k >= 0 and not m.bitval(b[k]):
                k -= 1
            return w - 1 - k
        u = m.canon_u(v, w)
        if isinstance(u, int):
            return w - u.bit_length()
        lo, hi = m.rng(u)
        if lo > 0 and int(lo).bit_length() == int(hi).bit_length():
            return w - int(lo).bit_length()
        k = m.datom('ctlz', (u, w), w - int(hi).bit_length() if hi != INF else 0, w - int(max(lo, 0)).bit_length(), isint=True)
        return Poly.of(k)
    if n.startswith('cttz'):
        w = int(n.split('.i')[1])
        if isinstance(a[0], int):
            return (a[0] & -a[0]).bit_length() - 1 if a[0] else w
    if n.startswith('ctpop'):
        if isinstance(a[0], int):
            return bin(a[0]).count('1')
    if n.startswith('bswap'):
        w = int(n.split('.i')[1])
        if isinstance(a[0], int):
            return int.from_bytes(a[0].to_bytes(w // 8, 'little'), 'big')
        return Poly.of(atom('bswap', (P(a[0]), w), 0, (1 << w) - 1, isint=True))
    if n.startswith(('fshl', 'fshr')):
        w = int(n.split('.i')[1])
        if all(isinstance(x, int) for x in a):
            s = a[2] % w
            v = (a[0] << w) | a[1]
            return ((v << s) >> w if n.startswith('fshl') else v >> s) & ((1 << w) - 1)
        if isinstance(a[2], int):
            s = a[2] % w
            if not s:
                return a[0] if n.startswith('fshl') else a[1]
            if n.startswith('fshr'):
                s = w - s
            return m.ibin('or', m.ibin('shl', a[0], s, w), m.ibin('lshr', a[1], w - s, w), w)
    if 'with.overflow' in n:
        w = int(n.split('.i')[1])
        op = n[1:4]
        r = m.ibin(op, a[0], a[1], w)
        if isinstance(a[0], int) and isinstance(a[1], int):
            x, y = (sgn(a[0], w), sgn(a[1], w)) if n[0] == 's' else (a[0], a[1])
            z = x + y if op == 'add' else x - y if op == 'sub' else x * y
            ov = not (-(1 << (w - 1)) <= z < (1 << (w - 1))) if n[0] == 's' else not (0 <= z < (1 << w))
            return [r, int(ov)]
    if n.startswith('invariant.'):
        return NULL
    if n.startswith('stacksave'):
        return NULL
    if n.startswith('stackrestore'):
        return None
    if n.startswith('trap'):
        raise Alarm('trap', 'llvm.trap reached')
    if n.startswith('x86.sse.min') or n.startswith('x86.sse2.min') or n.startswith('x86.sse2.max'):
        mx = 'max' in n
        return vecmap(lambda x, y: x if m.fcmp('ogt' if mx else 'olt', x, y) else y, a[0], a[1])
    if n.startswith('x86.sse2.movmsk.pd'):
        r = 0
        for i, v in enumerate(a[0]):
            r |= signbit(m, v) << i
        return r
    if n.startswith('x86.sse2.cvttpd2dq'):
        # values out of range give the integer indefinite value
        r = [fp2int(m, x, 32, True) for x in a[0]]
        return Vec([0x80000000 if x is UNDEF else x for x in r] + [0, 0])
    if n.startswith(('x86.sse2.ucomi', 'x86.sse2.comi')):
        k = n.split('comi')[1].split('.')[0]
        pr = {'eq': 'oeq', 'lt': 'olt', 'le': 'ole', 'gt': 'ogt', 'ge': 'oge', 'neq': 'une'}[k]
        return m.fcmp(pr, a[0][0], a[1][0])
    if n.startswith('x86.sse2.cmp.pd') or n.startswith('x86.sse2.cmp.sd'):
        pred = ['oeq', 'olt', 'ole', 'uno', 'une', 'uge', 'ugt', 'ord'][a[2] & 7]
        res = []
        for i, (x, y) in enumerate(zip(a[0], a[1])):
            if i and n.startswith('x86.sse2.cmp.sd'):
                res.append(x)
                continue
            res.append(b2d((1 << 64) - 1) if m.fcmp(pred, x, y) else 0.0)
        return Vec(res)
    import re as _re
    q = _re.match(r'x86\.sse2\.ps(ll|rl)i\.([dq])$', n)
    if q:
        w = {'d': 32, 'q': 64}[q.group(2)]
        op = {'ll': 'shl', 'rl': 'lshr'}[q.group(1)]
        c = a[1] & 255 if isinstance(a[1], int) else a[1]
        return Vec(0 if c >= w else m.ibin(op, x, c, w) for x in a[0])
    raise Unsupported('intrinsic ' + name)


def fpclass(m, v, mask):
    if v is UNDEF:
        raise Alarm('uninit', 'classification of an uninitialised value')
    if isinstance(v, float):
        if v != v:
            c = 3
        elif v in (INF, -INF):
            c = 0x200 if v > 0 else 4
        elif v == 0:
            c = 0x40 if math.copysign(1, v) > 0 else 0x20
        else:
            sub = abs(v) < 2.2250738585072014e-308
            c = (0x80 if sub else 0x100) if v > 0 else (0x10 if sub else 8)
        return int(bool(mask & c))
    fin = mask & 0x1f8
    if fin == 0x1f8:
        return 1
    if fin == 0:
        return 0
    # abstract finite value: subnormals are grouped with normals
    s = m.sign_of(v)
    return int(bool(mask & (0x180 if s > 0 else 0x18 if s < 0 else 0x60)))


def isqrt_bound(x, up):
    """a rational lower (upper) bound on the square root of x >= 0"""
    y = Fraction(x) * 4 ** 64
    n = -(-y.numerator // y.denominator) if up else y.numerator // y.denominator
    r = math.isqrt(n)
    return Fraction(r + (up and r * r < n), 1 << 64)


def signbit(m, v):
    if isinstance(v, float):
        return d2b(v) >> 63
    if isinstance(v, int):
        return (v >> 63) & 1
    if isinstance(v, Poly):
        a = v.single_atom()
        if a is not None and a.kind == 'signmask':
            return m.decide(a.args[0], {-1})
        return m.decide(v, {-1})
    raise Unsupported('sign bit of %r' % (v,))


def fl(m, v, f):
    if isinstance(v, Vec):
        return Vec(f(m, x) for x in v)
    return f(m, v)


def fabs(m, v):
    if v is UNDEF:
        return v
    if isinstance(v, float):
        return abs(v)
    s = m.signs(v)
    if -1 not in s:
        return v
    if 1 not in s:
        return v.neg()
    if m.opts.get('absatom'):
        k, _ = canon(v)
        c = v.t[min(v.t, key=lambda z: (len(z) == 0, [(a.id, e) for a, e in z]))]
        return Poly.of(atom('abs', (k,), 0, INF)).scale(abs(c))
    return v.neg() if m.decide(v, {-1}) else v


def mathfn(m, name, *a):
    if any(x is UNDEF for x in a):
        return UNDEF
    if name != 'sqrt':
        a = tuple(float(x.cval()) if isinstance(x, Poly) and x.is_const() and float(x.cval()) == x.cval() else x for x in a)
    if all(isinstance(x, float) for x in a):
        try:
            if any(x != x for x in a) and name not in ('pow',):
                return NAN
            if name == 'sqrt':
                return math.sqrt(a[0]) if a[0] >= 0 else NAN
            if name == 'fmod':
                return math.fmod(*a)
            if name in ('floor', 'ceil', 'trunc'):
                return a[0] if a[0] in (INF, -INF) else float(getattr(math, name)(a[0]))
            if name in ('rint', 'nearbyint'):
                return float(round(a[0]))
            return float(getattr(math, name)(*a))
        except ValueError:
            return NAN
        except OverflowError:
            return INF
    if any(isinstance(x, float) and x != x for x in a):
        return NAN
    if any(isinstance(x, float) and x in (INF, -INF) for x in a):
        if name == 'fmod' and isinstance(a[1], float) and a[1] in (INF, -INF):
            return a[0]
        raise Unsupported('%s of infinity' % name)
    if name == 'sqrt':
        if a[0].is_const():
            c = a[0].cval()
            if c >= 0:
                for q in (math.isqrt(c.numerator),):
                    if q * q == c.numerator and math.isqrt(c.denominator) ** 2 == c.denominator:
                        return P(Fraction(q, math.isqrt(c.denominator)))
        lo, hi = m.rng(a[0])
        return Poly.of(m.datom('sqrt', (a[0],), isqrt_bound(lo, 0) if lo > 0 and lo != INF else 0, INF if hi == INF or hi < 0 else isqrt_bound(hi, 1)))
    if name in ('floor', 'ceil', 'rint', 'nearbyint', 'round', 'trunc'):
        p = a[0]
        if m.isintp(p) and all(c.denominator == 1 for c in p.t.values()):
            return p
        lo, hi = m.rng(p)
        dn, up = {'floor': (math.floor,) * 2, 'ceil': (math.ceil,) * 2, 'trunc': (math.trunc,) * 2}.get(name, (math.floor, math.ceil))
        lo, hi = -INF if lo == -INF else dn(lo), INF if hi == INF else up(hi)
        if lo == hi and lo != INF:
            return float(lo)
        return Poly.of(atom(name, (p,), lo, hi, isint=True))
    if name in ('sin', 'cos', 'tan', 'asin', 'atan'):
        # parity: canonical argument sign
        p = P(a[0])
        k = min(p.t, key=lambda z: (len(z) == 0, [(x.id, e) for x, e in z])) if p.t else None
        if k is None:
            return float(getattr(math, name)(0.0))
        if p.t[k] < 0:
            r = m.fn(name, p.neg())
            return r if name == 'cos' else r.neg()
        if name in ('asin', 'atan') and m.opts.get('minmax'):
            s = m.signs(p)
            l, h = FNRANGE.get(name, (-INF, INF))
            return Poly.of(m.datom(name, (p,), 0 if -1 not in s else l, 0 if 1 not in s else h))
        return m.fn(name, p)
    return m.fn(name, *a)


def mk_math(name):
    return lambda m, a: mathfn(m, name, *a)


def b_new(m, a):
    n = a[0]
    if isinstance(n, int):
        pass
    else:
        n = m.canon_u(n, 64)
        if not isinstance(n, int):
            lo, hi = m.rng(n)
            if m.opts.get('opaque_alloc'):
                o = m.alloc(None, 'heap')
                m.allocs = getattr(m, 'allocs', [])
                m.allocs.append((n, m.where()))
                return Ptr(o, 0)
            n = m.concretize(n, 300)
    if m.alloc_hook:
        m.alloc_hook(m, n)
    o = m.alloc(n, 'heap')
    return Ptr(o, 0)


def b_delete(m, a):
    p = a[0]
    if isinstance(p, Ptr) and p.obj is None:
        return None
    if p.obj.kind != 'heap':
        raise Alarm('free', 'deallocation of non-heap object %s' % p.obj)
    if not p.obj.alive:
        raise Alarm('free', 'double free of %s' % p.obj)
    if p.off != 0:
        raise Alarm('free', 'deallocation of interior pointer')
    p.obj.alive = False
    return None


def throw_std(m, tinfo, msg=''):
    o = m.alloc(16, 'exception')
    e = CxxThrow(o, tinfo)
    raise e


def b_cxa_throw(m, a):
    raise CxxThrow(a[0].obj, m.tiname(a[1]))


def b_begin_catch(m, a):
    e = m.exc.pop()
    m.caught = getattr(m, 'caught', [])
    m.caught.append(e)
    return Ptr(e.obj, 0)


def b_end_catch(m, a):
    if getattr(m, 'caught', None):
        m.caught.pop()
    return None


def b_rethrow(m, a):
    raise m.caught[-1]


def b_memchr(m, a):
    raise Unsupported('memchr')


def b_memcmp(m, a):
    n = a[2] if isinstance(a[2], int) else m.concretize(a[2])
    i = 0
    while i < n:
        cells = [p.obj.cells.get(p.off + i) if isinstance(p.off, int) else None for p in a[:2]]
        if all(c is not None and c[0] == 8 for c in cells) and i + 8 <= n and not all(isinstance(c[1], int) for c in cells):
            # equality of whole words; memcmp order of abstract words is not
            # needed by any caller (only compared with zero)
            x, y = [m.load(Ptr(p.obj, p.off + i), ['i', 64], 8) for p in a[:2]]
            if not m.icmp('eq', x, y, 64):
                return 1
            i += 8
            continue
        if all(c is not None for c in cells) and cells[0][0] == cells[1][0] and i + cells[0][0] <= n and isinstance(
                cells[0][1], int) and cells[0][1] == cells[1][1]:
            m.check(a[0], i + cells[0][0], False)
            m.check(a[1], i + cells[0][0], False)
            i += cells[0][0]
            continue
        x = m.load(Ptr(a[0].obj, a[0].off + i), ['i', 8], 1)
        y = m.load(Ptr(a[1].obj, a[1].off + i), ['i', 8], 1)
        if not m.icmp('eq', x, y, 8):
            return (-1 if m.icmp('ult', x, y, 8) else 1) & 0xffffffff
        i += 1
    return 0


def b_strlen(m, a):
    return len(m.cstr(a[0]))


def b_strcmp(m, a):
    x, y = m.cstr(a[0]), m.cstr(a[1])
    return ((x > y) - (x < y)) & 0xffffffff


def b_dyncast(m, a):
    src, st, dt, hint = a
    if isinstance(src, Ptr) and src.obj is None:
        return NULL
    tn = dynamic_type(m, src)
    vt = m.load(src, ['p'], 8)
    top = m.load(Ptr(vt.obj, vt.off - 16), ['i', 64], 8)
    if m.derives(tn, m.tiname(dt)):
        return Ptr(src.obj, src.off + sgn(top, 64))
    return NULL


def dynamic_type(m, p):
    vt = m.load(p, ['p'], 8)
    ti = m.load(Ptr(vt.obj, vt.off - 8), ['p'], 8)
    return m.tiname(ti)


def b_ldexp(m, a):
    x, e = a
    if isinstance(e, int):
        e = sgn(e, 32)
        if isinstance(x, float):
            return math.ldexp(x, e)
        return x.scale(Fraction(2) ** e)
    return m.fn('ldexp', x, P(e))


BUILTINS = {
    '_Znwm': b_new, '_Znam': b_new, 'malloc': b_new,
    '_ZnwmSt11align_val_t': b_new, '_ZnamRKSt9nothrow_t': b_new,
    '_ZdlPv': b_delete, '_ZdlPvm': b_delete, '_ZdaPv': b_delete, '_ZdaPvm': b_delete, 'free': b_delete,
    '_ZdlPvmSt11align_val_t': b_delete,
    'memcpy': lambda m, a: (m.memcpy(a[0], a[1], a[2]), a[0])[1],
    'memmove': lambda m, a: (m.memcpy(a[0], a[1], a[2]), a[0])[1],
    'memset': lambda m, a: (m.memset(a[0], a[1] & 255, a[2]), a[0])[1],
    'memcmp': b_memcmp, 'bcmp': b_memcmp, 'strlen': b_strlen, 'strcmp': b_strcmp,
    '__cxa_allocate_exception': lambda m, a: Ptr(m.alloc(a[0], 'exception'), 0),
    '__cxa_free_exception': lambda m, a: None,
    '__cxa_throw': b_cxa_throw, '__cxa_begin_catch': b_begin_catch, '__cxa_end_catch': b_end_catch,
    '__cxa_rethrow': b_rethrow, '__cxa_get_exception_ptr': lambda m, a: a[0],
    '__cxa_guard_acquire': lambda m, a: 0 if m.load(a[0], ['i', 8], 1) else 1,
    '__cxa_guard_release': lambda m, a: m.store(a[0], 1, ['i', 8], 1),
    '__cxa_guard_abort': lambda m, a: None,
    '__cxa_atexit': lambda m, a: 0,
    '__cxa_bad_cast': lambda m, a: throw_std(m, '_ZTISt8bad_cast'),
    '__cxa_bad_typeid': lambda m, a: throw_std(m, '_ZTISt10bad_typeid'),
    '__dynamic_cast': b_dyncast,
    'ldexp': b_ldexp, 'scalbn': b_ldexp,
    'fabs': lambda m, a: fabs(m, a[0]),
    '_ZSt9terminatev': lambda m, a: (_ for _ in ()).throw(Alarm('terminate', 'std::terminate reached')),
    '__clang_call_terminate': lambda m, a: (_ for _ in ()).throw(Alarm('terminate', 'std::terminate reached')),
    'abort': lambda m, a: (_ for _ in ()).throw(Alarm('abort', 'abort reached')),
    '_ZSt17__throw_bad_allocv': lambda m, a: throw_std(m, '_ZTISt9bad_alloc'),
    '_ZSt28__throw_bad_array_new_lengthv': lambda m, a: throw_std(m, '_ZTISt20bad_array_new_length'),
    '_ZSt20__throw_length_errorPKc': lambda m, a: throw_std(m, '_ZTISt12length_error'),
    '_ZSt20__throw_out_of_rangePKc': lambda m, a: throw_std(m, '_ZTISt12out_of_range'),
    '_ZSt24__throw_out_of_range_fmtPKcz': lambda m, a: throw_std(m, '_ZTISt12out_of_range'),
    '_ZSt19__throw_logic_errorPKc': lambda m, a: throw_std(m, '_ZTISt11logic_error'),
    '_ZSt25__throw_bad_function_callv': lambda m, a: throw_std(m, '_ZTISt17bad_function_call'),
    '__assert_fail': lambda m, a: (_ for _ in ()).throw(Alarm('assert', 'assertion fails')),
    '__memcpy_chk': lambda m, a: (m.memcpy(a[0], a[1], a[2]), a[0])[1],
}
for _n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sqrt', 'fmod', 'floor', 'ceil', 'hypot', 'pow', 'exp',
           'log', 'rint', 'nearbyint', 'round', 'trunc'):
    BUILTINS[_n] = mk_math(_n)


def minmax(m, mx, x, y):
    """minimum or maximum as an atom with its defining inequalities"""
    if any(isinstance(z, float) and (z != z or z in (INF, -INF)) for z in (x, y)):
        return (x if m.fcmp('ogt' if mx else 'olt', x, y) else y)
    kind = 'max' if mx else 'min'
    ops = []
    for z in (P(x), P(y)):
        a = z.single_atom()
        ops += list(a.args) if a is not None and a.kind == kind else [z]
    keep = []
    for z in ops:
        if z in keep:
            continue
        drop = False
        for w in list(keep):
            lo, hi = m.rng(z.add(w, -1))
            if (lo >= 0 and mx) or (hi <= 0 and not mx):
                keep.remove(w)
            elif (hi <= 0 and mx) or (lo >= 0 and not mx):
                drop = True
        if not drop:
            keep.append(z)
    if len(keep) == 1:
        return keep[0]
    args = tuple(sorted(keep, key=lambda p: repr(sorted((tuple((a.id, e) for a, e in k), str(c)) for k, c in p.t.items()))))
    b = [m.rng(z) for z in args]
    f = max if mx else min
    v = Poly.of(m.datom(kind, args, f(l for l, h in b), f(h for l, h in b)))
    for z in args:
        m.learn(v.add(z, -1), {0, 1} if mx else {-1, 0})
    return v


def b_fminmax(mx):
    def f(m, a):
        if m.opts.get('minmax'):
            return minmax(m, mx, a[0], a[1])
        if m.fcmp('uno', a[0], a[0]):
            return a[1]
        if m.fcmp('uno', a[1], a[1]):
            return a[0]
        return a[0] if m.fcmp('ogt' if mx else 'olt', a[0], a[1]) else a[1]
    return f


def b_string_create(m, a):
    n = m.load(a[1], ['i', 64], 8)
    if not isinstance(n, int):
        raise Unsupported('string of unknown length')
    return b_new(m, [n + 1])


def b_string_dispose(m, a):
    p = m.load(a[0], ['p'], 8)
    if isinstance(p, Ptr) and p.obj is not a[0].obj:
        b_delete(m, [p])
    return None


def b_string_append(m, a):
    n, old = m.load(Ptr(a[0].obj, a[0].off + 8), ['i', 64], 8), m.load(a[0], ['p'], 8)
    k = a[2]
    if not isinstance(n, int) or not isinstance(k, int):
        raise Unsupported('string of unknown length')
    new = b_new(m, [n + k + 1])
    m.memcpy(new, old, n)
    m.memcpy(Ptr(new.obj, new.off + n), a[1], k)
    b_string_dispose(m, a)
    m.store(a[0], new, ['p'], 8)
    m.store(Ptr(a[0].obj, a[0].off + 8), n + k, ['i', 64], 8)
    m.store(Ptr(a[0].obj, a[0].off + 16), n + k, ['i', 64], 8)
    m.store(Ptr(new.obj, new.off + n + k), 0, ['i', 8], 1)
    return a[0]


BUILTINS['_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_appendEPKcm'] = b_string_append
BUILTINS['_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm'] = b_string_create
BUILTINS['_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE10_M_disposeEv'] = b_string_dispose
BUILTINS['_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEED1Ev'] = b_string_dispose
BUILTINS['fmin'] = b_fminmax(False)
BUILTINS['fmax'] = b_fminmax(True)

EXC_CTOR = ('_ZNSt13runtime_errorC', '_ZNSt16invalid_argumentC', '_ZNSt11logic_errorC', '_ZNSt12out_of_rangeC',
            '_ZNSt14overflow_errorC', '_ZNSt12domain_errorC', '_ZNSt12length_errorC', '_ZNSt11range_errorC',
            '_ZNSt9exceptionC', '_ZNSt15underflow_errorC')


def extern(m, name, a, f):
    if name.startswith(EXC_CTOR):
        return None
    if name.startswith('_ZNSt') and ('D0Ev' in name or 'D1Ev' in name or 'D2Ev' in name):
        return None
    if name.startswith('_ZNSo') or name.startswith('_ZStls') or name.startswith('_ZNSolsE'):
        return a[0]
    raise Unsupported('external function ' + (f.dem if f else name))


# ---- partition driver --------------------------------------------------------
class Result:
    def __init__(self, m, value, exc=None, alarm=None):
        self.m, self.value, self.exc, self.alarm = m, value, exc, alarm

    def path(self, n=30):
        out = []
        for d, l, c in self.m.tdesc[-n:]:
            out.append('%s: %s -> %s' % (l, d() if callable(d) else d, c))
        return out


def explore(prog, fn, stubs=None, opts=None, maxpaths=20000):
    """Call fn(machine) for every partition; yields Result."""
    prefix = []
    n = 0
    while True:
        m = Machine(prog, prefix, stubs, opts)
        res = None
        try:
            v = fn(m)
            res = Result(m, v)
        except CxxThrow as e:
            res = Result(m, None, exc=e.tinfo)
        except Alarm as e:
            res = Result(m, None, alarm=e)
            res.where = getattr(e, 'where', None)
        except Infeasible:
            res = None
        if res is not None:
            yield res
        n += 1
        if n > maxpaths:
            raise Budget('too many partitions (%d)' % n)
        tr = m.trace
        while tr and tr[-1][0] + 1 >= tr[-1][1]:
            tr.pop()
        if not tr:
            return
        prefix = [c for c, _ in tr]
        prefix[-1] += 1
