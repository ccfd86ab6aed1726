"""C01: algebra of one-dimensional and angle intervals, decided over every
order type of the endpoints (NaN included)."""
from common import *
from framework import parallel

EXPLANATION = (
    'Abstract interpretation of the linked LLVM IR of every public member of the interval class template, for both '
    'instantiations, over the finite domain of order types: each obligation is one (operation, order type) pair; an '
    'order type is a weak ordering of the operands\' endpoints with any subset of them NaN, so one obligation stands '
    'for all inputs with that ordering. Operations that only compare are therefore decided for every input. '
    'Dilation/erosion and centre/size are decided in the polynomial domain (exact-real reading of the arithmetic).')
ASSUMPTIONS = ['signed zeros are not distinguished', 'for dilation, erosion, centre and size: arithmetic read over the reals']

TYPES = {'Interval1d': ('Interval1d', 'double', ''), 'AngleInterval': ('AngleInterval', 'Angle', '.asRadians()')}


def harness():
    s = '''
#include "lsst/sphgeom/Interval1d.h"
#include "lsst/sphgeom/AngleInterval.h"
using namespace lsst::sphgeom;
static inline double D(double x) { return x; }
static inline double D(Angle x) { return x.asRadians(); }
static inline int R(Relationship r) { return ((r & CONTAINS) != 0 ? 1 : 0) + ((r & DISJOINT) != 0 ? 2 : 0) + ((r & WITHIN) != 0 ? 4 : 0); }
'''
    for n, (t, sc, _) in TYPES.items():
        s += '''
extern "C" void h_pred_%(n)s(double a, double b, double c, double d, long *o) {
  %(t)s x{%(s)s(a), %(s)s(b)}; %(t)s y{%(s)s(c), %(s)s(d)};
  o[0] = x.contains(y); o[1] = x.isDisjointFrom(y); o[2] = x.intersects(y); o[3] = x.isWithin(y);
  o[4] = R(x.relate(y)); o[5] = (x == y); o[6] = (x != y); o[7] = x.isEmpty();
}
extern "C" void h_pt_%(n)s(double a, double b, double c, long *o) {
  %(t)s x{%(s)s(a), %(s)s(b)}; %(s)s y(c);
  o[0] = x.contains(y); o[1] = x.isDisjointFrom(y); o[2] = x.intersects(y); o[3] = x.isWithin(y);
  o[4] = R(x.relate(y)); o[5] = (x == y); o[6] = (x != y); o[7] = x.isEmpty();
}
extern "C" void h_mut_%(n)s(double a, double b, double c, double d, double *o) {
  %(t)s x{%(s)s(a), %(s)s(b)}; const %(t)s y{%(s)s(c), %(s)s(d)};
  %(t)s p(x), q(x); p.clipTo(y); q.expandTo(y);
  const %(t)s r = x.clippedTo(y), s = x.expandedTo(y);
  const %(t)s all[6] = {p, q, r, s, x, y};
  for (int i = 0; i < 6; ++i) { o[2*i] = D(all[i].getA()); o[2*i+1] = D(all[i].getB()); }
}
extern "C" void h_mutpt_%(n)s(double a, double b, double c, double *o) {
  %(t)s x{%(s)s(a), %(s)s(b)}; const %(s)s y(c);
  %(t)s p(x), q(x); p.clipTo(y); q.expandTo(y);
  const %(t)s r = x.clippedTo(y), s = x.expandedTo(y);
  const %(t)s all[5] = {p, q, r, s, x};
  for (int i = 0; i < 5; ++i) { o[2*i] = D(all[i].getA()); o[2*i+1] = D(all[i].getB()); }
}
extern "C" void h_alias_%(n)s(double a, double b, double *o) {
  %(t)s x{%(s)s(a), %(s)s(b)}; %(t)s y(x);
  x.clipTo(x); y.expandTo(y);
  o[0] = D(x.getA()); o[1] = D(x.getB()); o[2] = D(y.getA()); o[3] = D(y.getB());
}
extern "C" void h_dil_%(n)s(double a, double b, double c, double *o) {
  %(t)s x{%(s)s(a), %(s)s(b)}; const %(s)s y(c);
  %(t)s p(x), q(x); p.dilateBy(y); q.erodeBy(y);
  const %(t)s r = x.dilatedBy(y), s = x.erodedBy(y);
  const %(t)s all[5] = {p, q, r, s, x};
  for (int i = 0; i < 5; ++i) { o[2*i] = D(all[i].getA()); o[2*i+1] = D(all[i].getB()); }
}
extern "C" void h_mis_%(n)s(double a, double b, double *o) {
  const %(t)s x{%(s)s(a), %(s)s(b)}; const %(t)s e{}, f(%(t)s::empty()), g(%(t)s::full()); const %(t)s p{%(s)s(a)};
  o[0] = D(x.getA()); o[1] = D(x.getB()); o[2] = D(x.getCenter()); o[3] = D(x.getSize());
  o[4] = e.isEmpty(); o[5] = f.isEmpty(); o[6] = g.contains(x); o[7] = D(p.getA()); o[8] = D(p.getB());
}
''' % {'n': n, 't': t, 's': sc}
    s += '''
extern "C" void h_ctl(double a, double b, double c, double d, long *o) {  // positive control: wrong containment
  o[0] = (a < c) && (b >= d);
}
extern "C" void h_ang(double a, double b, double *o) {
  AngleInterval r = AngleInterval::fromRadians(a, b), d = AngleInterval::fromDegrees(a, b);
  o[0] = r.getA().asRadians(); o[1] = r.getB().asRadians(); o[2] = d.getA().asRadians(); o[3] = d.getB().asRadians();
  o[4] = Angle::fromDegrees(a).asRadians(); o[5] = Angle::fromDegrees(b).asRadians();
}
'''
    return s


def is_empty(a, b):
    return a is None or b is None or a > b


def rel(x, y):
    """(superset, disjoint, subset) of closed intervals given as rank pairs"""
    ex, ey = is_empty(*x), is_empty(*y)
    con = ey or (not ex and x[0] <= y[0] and y[1] <= x[1])
    dis = ex or ey or x[1] < y[0] or y[1] < x[0]
    wit = ex or (not ey and y[0] <= x[0] and x[1] <= y[1])
    return con, dis, wit


def inter(x, y):
    if is_empty(*x) or is_empty(*y):
        return (None, None)
    r = (max(x[0], y[0]), min(x[1], y[1]))
    return r if r[0] <= r[1] else (None, None)


def hull(x, y):
    if is_empty(*x):
        return y
    if is_empty(*y):
        return x
    return (min(x[0], y[0]), max(x[1], y[1]))


def sameset(x, y):
    return (is_empty(*x) and is_empty(*y)) or (x == y)


NAMES = ['contains', 'isDisjointFrom', 'intersects', 'isWithin', 'relate', 'operator==', 'operator!=', 'isEmpty']


def show(ot):
    return '(' + ', '.join('%s=%s' % (n, 'NaN' if r is None else 'rank %d' % r) for n, r in zip('abcd', ot)) + ')'


def expected_pred(x, y):
    con, dis, wit = rel(x, y)
    eq = sameset(x, y)
    return [con, dis, not dis, wit, con + 2 * dis + 4 * wit, eq, not eq, is_empty(*x)]


def run1(chk, prog, entry, ot, n, kind):
    """one order type through one entry"""
    cov = set()
    vals = [fsym('abcd'[i], r) for i, r in enumerate(ot)]

    def go(m):
        out = outbuf(m, n)
        m.call(entry, vals + [out])
        return [geti(m, out, i) if kind == 'i' else getd(m, out, i) for i in range(n)]
    res = list(explore(prog, go, opts={'cov': cov}))
    chk.partitions += len(res)
    src_of(prog, chk, cov)
    return res


def alarm(chk, prog, entry, ot, r, typ, op):
    if r.alarm is not None or r.exc is not None:
        chk.fail('no-fault', '%s:%s:fault' % (typ, op), (r.alarm.where or ['?'])[0] if r.alarm else typ,
                 '%s with %s: %s' % (entry, show(ot), r.alarm or r.exc))
        return True
    return False


def run(chk):
    prog = Program(build.build_ir(harness(), 'C01'))
    items = []
    for t in TYPES:
        items += [('pred', t, ot) for ot in order_types(4)]
        items += [('mut', t, ot) for ot in order_types(4)]
        items += [('pt', t, ot) for ot in order_types(3)]
        items += [('mutpt', t, ot) for ot in order_types(3)]
        items += [('alias', t, ot) for ot in order_types(2)]
        items += [('dil', t, ot) for ot in order_types(3)]
        items += [('mis', t, ot) for ot in order_types(2)]

    # positive control
    hit = 0
    for ot in order_types(4):
        for r in run1(chk, prog, 'h_ctl', ot, 1, 'i'):
            if bool(r.value[0]) != expected_pred(ot[:2], ot[2:])[0]:
                hit += 1
    if not hit:
        raise build.AnalysisError('positive control did not fire')
    chk.info['positive_control_reports'] = hit

    def one(c, it):
        what, t, ot = it
        e = 'h_%s_%s' % (what, t)

        def L(op):
            return loc_of(prog, r'Interval<.*%s, .*>::%s\(' % (t, op.replace('operator==', r'operator==').replace('operator!=', 'operator!=')))
        if what in ('pred', 'pt'):
            x, y = ot[:2], (ot[2:] if what == 'pred' else (ot[2], ot[2]))
            want = expected_pred(x, y)
            for r in run1(c, prog, e, ot, 8, 'i'):
                if alarm(c, prog, e, ot, r, t, what):
                    continue
                for i, n in enumerate(NAMES):
                    arg = 'interval' if what == 'pred' else 'scalar'
                    c.expect(int(r.value[i]) == int(want[i]), 'set-predicate', '%s::%s(%s)' % (t, n, arg), L(n),
                             '%s::%s(%s) is %s for %s, set semantics require %s' % (t, n, arg, r.value[i], show(ot), int(want[i])))
            if len(c.samples) < 2:
                c.samples.append('%s %s: %s' % (e, show(ot), dict(zip(NAMES, map(int, want)))))
        elif what in ('mut', 'mutpt'):
            x, y = ot[:2], (ot[2:] if what == 'mut' else (ot[2], ot[2]))
            n = 12 if what == 'mut' else 10
            arg = 'interval' if what == 'mut' else 'scalar'
            for r in run1(c, prog, e, ot, n, 'f'):
                if alarm(c, prog, e, ot, r, t, what):
                    continue
                ops = ['clipTo', 'expandTo', 'clippedTo', 'expandedTo', '(operand)', '(argument)'][:n // 2]
                want = [inter(x, y), hull(x, y), inter(x, y), hull(x, y), x, y]
                for i, op in enumerate(ops):
                    try:
                        got = (rank_of(r.value[2 * i]), rank_of(r.value[2 * i + 1]))
                    except ValueError as ex:
                        got = ex
                    c.expect(not isinstance(got, ValueError) and sameset(got, want[i]), 'clip-expand',
                             '%s::%s(%s)' % (t, op, arg), L(op),
                             lambda: '%s::%s(%s) for %s gives %s, expected %s' % (t, op, arg, show(ot), got, want[i]))
        elif what == 'alias':
            for r in run1(c, prog, e, ot, 4, 'f'):
                if alarm(c, prog, e, ot, r, t, what):
                    continue
                for i, op in enumerate(('clipTo', 'expandTo')):
                    got = (rank_of(r.value[2 * i]), rank_of(r.value[2 * i + 1]))
                    c.expect(sameset(got, ot), 'alias', '%s::%s(self)' % (t, op), L(op),
                             '%s::%s with itself for %s gives %s' % (t, op, show(ot), got))
        elif what == 'dil':
            v = [fsym('abc'[i], q) for i, q in enumerate(ot)]
            for r in run1(c, prog, e, ot, 10, 'f'):
                if alarm(c, prog, e, ot, r, t, what):
                    continue
                for i, (op, sg) in enumerate((('dilateBy', 1), ('erodeBy', -1), ('dilatedBy', 1), ('erodedBy', -1), ('(operand)', 0))):
                    ga, gb = r.value[2 * i], r.value[2 * i + 1]
                    if is_empty(ot[0], ot[1]):
                        good = (isinstance(ga, float) and ga != ga) or (isinstance(gb, float) and gb != gb) or \
                            r.m.signs(P(ga).add(P(gb), -1)) == {1}
                    elif ot[2] is None or sg == 0:
                        good = ga == v[0] and gb == v[1]
                    else:
                        good = ga == v[0].add(v[2], -sg) and gb == v[1].add(v[2], sg)
                    c.expect(good, 'dilate-erode', '%s::%s' % (t, op), L(op),
                             lambda: '%s::%s for %s gives [%s, %s]' % (t, op, show(ot), ga, gb))
        elif what == 'mis':
            v = [fsym('ab'[i], q) for i, q in enumerate(ot)]
            for r in run1(c, prog, e, ot, 9, 'f'):
                if alarm(c, prog, e, ot, r, t, what):
                    continue
                o = r.value
                nan = None in ot

                def eqv(g, w):
                    return g == w or (isinstance(g, float) and g != g and isinstance(w, float) and w != w)
                c.expect(eqv(o[0], v[0]) and eqv(o[1], v[1]), 'accessors', t + '::getA/getB', L('getA'), show(ot))
                if not nan:
                    c.expect(o[2] == v[0].add(v[1]).scale(Fraction(1, 2)), 'accessors', t + '::getCenter', L('getCenter'), lambda: str(o[2]))
                    c.expect(o[3] == v[1].add(v[0], -1), 'accessors', t + '::getSize', L('getSize'), lambda: str(o[3]))
                c.expect(o[4] == 1.0 and o[5] == 1.0, 'accessors', t + '::empty', t, 'default/empty() not empty')
                c.expect(o[6] == 1.0, 'accessors', t + '::full', t, 'full() does not contain %s' % show(ot))
                c.expect(eqv(o[7], v[0]) and eqv(o[8], v[0]), 'accessors', t + '(scalar)', t, 'single-point constructor')
    parallel(chk, items, one)
    for r in explore(prog, lambda m: (lambda o: (m.call('h_ang', [sym('a'), sym('b'), o]), [getd(m, o, i) for i in range(6)])[1])(outbuf(m, 6))):
        o = r.value
        chk.expect(o[0] == sym('a') and o[1] == sym('b') and o[2] == o[4] and o[3] == o[5], 'accessors', 'AngleInterval::from*',
                   'AngleInterval', 'fromRadians/fromDegrees endpoints %s' % (o,))
    chk.need('set-predicate', 2400)
    chk.need('clip-expand', 2000)
