"""helpers shared by the order-type checks"""
import itertools
from fractions import Fraction
from absint import (Machine, Ptr, Obj, explore, Program, UNDEF, NULL, Alarm)
from dom import sym, Poly, P, INF, NAN
import build


def weak_orders(n):
    """all weak orderings of n items, as rank tuples onto 1..k"""
    for t in itertools.product(range(1, n + 1), repeat=n):
        s = set(t)
        if s == set(range(1, len(s) + 1)):
            yield t


def order_types(n, nan=True):
    """weak orderings of n values any subset of which may be NaN (rank None)"""
    for k in range(2 ** n if nan else 1):
        live = [i for i in range(n) if not (k >> i) & 1]
        for w in (weak_orders(len(live)) if live else [()]):
            r = [None] * n
            for i, x in zip(live, w):
                r[i] = x
            yield tuple(r)


def fsym(name, rank, lo=-INF, hi=INF):
    if rank is None:
        return NAN
    return sym(name, lo, hi, rank=Fraction(rank))


def isym(name, rank, lo=0, hi=2**64 - 1):
    return sym(name, lo, hi, rank=Fraction(rank), isint=True)


def rank_of(v):
    """rank of a returned value: None for NaN"""
    if isinstance(v, float):
        return None if v != v else Fraction(v) if v not in (INF, -INF) else v
    if isinstance(v, Poly):
        if v.is_const():
            return v.cval()
        a = v.single_atom()
        if a is not None and a.rank is not None:
            return a.rank
    raise ValueError('result %r is not one of the inputs' % (v,))


def outbuf(m, n, size=8):
    o = Obj('out', n * size, 'heap')
    return Ptr(o, 0)


def getd(m, p, i):
    return m.load(Ptr(p.obj, p.off + 8 * i), ['d'], 8)


def geti(m, p, i):
    return m.load(Ptr(p.obj, p.off + 8 * i), ['i', 64], 8)


def geti32(m, p, i):
    return m.load(Ptr(p.obj, p.off + 4 * i), ['i', 32], 4)


def src_of(prog, chk, cov):
    for n in cov:
        f = prog.funcs.get(n)
        if f is not None and f.file and '/sphgeom/' in f.file.replace('/repo/', '/sphgeom/'):
            chk.functions.add(f.dem)


def loc_of(prog, pattern):
    """file:line of the repo function whose demangled name contains pattern"""
    import re
    rx = re.compile(pattern)
    for f in prog.funcs.values():
        if f.file and f.line and '/usr/' not in f.file and rx.search(f.dem):
            return '%s (%s:%s)' % (f.dem, f.file.replace(build.BUILD, ''), f.line)
    return pattern


def symbols(prog, pattern):
    """mangled names of the functions whose demangled name matches"""
    import re
    rx = re.compile(pattern)
    return [n for n, f in prog.funcs.items() if rx.search(f.dem)]


def stub_map(prog, table, required=True):
    out = {}
    for pat, fn in table.items():
        ns = symbols(prog, pat)
        if not ns and required:
            raise build.AnalysisError('no function matches ' + pat)
        for n in ns:
            out[n] = fn
    return out


# A Region whose every virtual member is an analysis hook: it stands for any
# region whatsoever.
OPAQUE_REGION = r'''
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/Box3d.h"
#include "lsst/sphgeom/Circle.h"
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/Ellipse.h"
#include "lsst/sphgeom/CompoundRegion.h"
#include <new>
using namespace lsst::sphgeom;
extern "C" {
long v_relate(long id, long kind, void const *rhs);
long v_contains(long id, UnitVector3d const *v);
void v_box(long id, double *o);
void v_box3d(long id, double *o);
void v_circle(long id, double *o);
void v_clone(long id);
void v_dtor(long id);
}
static UnitVector3d U(double const *v) { return UnitVector3d::fromNormalized(v[0], v[1], v[2]); }
struct Opq : public Region {
  long id;
  explicit Opq(long i) : id(i) {}
  ~Opq() { v_dtor(id); }
  std::unique_ptr<Region> clone() const override { v_clone(id); return std::unique_ptr<Region>(new Opq(id)); }
  Box getBoundingBox() const override { double o[4]; v_box(id, o);
    return Box(NormalizedAngleInterval::fromRadians(o[0], o[1]), AngleInterval::fromRadians(o[2], o[3])); }
  Box3d getBoundingBox3d() const override { double o[6]; v_box3d(id, o);
    return Box3d(Interval1d(o[0], o[1]), Interval1d(o[2], o[3]), Interval1d(o[4], o[5])); }
  Circle getBoundingCircle() const override { double o[4]; v_circle(id, o); return Circle(U(o), o[3]); }
  bool contains(UnitVector3d const &v) const override { return v_contains(id, &v) != 0; }
  using Region::contains;
  Relationship relate(Region const &r) const override { return Relationship(v_relate(id, 0, &r)); }
  Relationship relate(Box const &r) const override { return Relationship(v_relate(id, 1, &r)); }
  Relationship relate(Circle const &r) const override { return Relationship(v_relate(id, 2, &r)); }
  Relationship relate(ConvexPolygon const &r) const override { return Relationship(v_relate(id, 3, &r)); }
  Relationship relate(Ellipse const &r) const override { return Relationship(v_relate(id, 4, &r)); }
  std::vector<std::uint8_t> encode() const override { return {}; }
};
'''
DISJOINT, CONTAINS, WITHIN = 1, 2, 4


def invert(r):
    return (r & 1) | (2 if r & 4 else 0) | (4 if r & 2 else 0)
