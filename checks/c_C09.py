"""C09: decoding arbitrary bytes is memory safe, leaks nothing, and either
returns a region or throws a standard exception."""
from common import *
from framework import parallel
import absint

EXPLANATION = (
    'Abstract interpretation of the linked LLVM IR of every decode() entry point on a buffer whose bytes are all unknown, for '
    'every buffer length up to the bound and for the default and the portable build. Every load is an obligation: it must lie '
    'inside [buffer, buffer + n) for every value of the bytes read so far (in particular for every operand length found in the '
    'buffer). The nested call of Region::decode made for each operand of a compound region is cut by induction: the callee is '
    'replaced by its contract (returns a region, or throws, provided its byte range lies inside the buffer), and the byte range is '
    'the obligation. At the end no heap object allocated by decode may be left alive once the result is deleted, the result may '
    'not be null, and every exception must derive from std::exception.')
ASSUMPTIONS = ['the caller passes a pointer to n readable bytes (n = 0 may come with a null pointer)', 'allocation does not fail',
               'induction on buffer length for nested compound regions']

HARNESS = r'''
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/Circle.h"
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/Ellipse.h"
#include "lsst/sphgeom/CompoundRegion.h"
#include <exception>
using namespace lsst::sphgeom;
typedef std::vector<std::uint8_t> Bytes;
static long kindOf(Region const *r) {
  if (dynamic_cast<Box const *>(r)) return 'b';
  if (dynamic_cast<Circle const *>(r)) return 'c';
  if (dynamic_cast<ConvexPolygon const *>(r)) return 'p';
  if (dynamic_cast<Ellipse const *>(r)) return 'e';
  if (dynamic_cast<UnionRegion const *>(r)) return 'u';
  if (dynamic_cast<IntersectionRegion const *>(r)) return 'i';
  return '?';
}
static unsigned long len;
template <typename T> static long fin(std::unique_ptr<T> p) { if (!p) return 2; long k = kindOf(p.get());
  if (k == 'u' || k == 'i') return k; return p->encode().size() == len ? k : k + 256; }
extern "C" long h_dec(long which, std::uint8_t const *b, unsigned long n) { len = n;
  try {
    switch (which) {
      case 0: return fin(Region::decode(b, n));
      case 1: return fin(Box::decode(b, n));
      case 2: return fin(Circle::decode(b, n));
      case 3: return fin(ConvexPolygon::decode(b, n));
      case 4: return fin(Ellipse::decode(b, n));
      case 5: return fin(CompoundRegion::decode(b, n));
      case 6: return fin(UnionRegion::decode(b, n));
      case 7: return fin(IntersectionRegion::decode(b, n));
    }
  } catch (std::exception const &) { return 0; } catch (...) { return 3; }
  return 4;
}
extern "C" Region *h_region() { return new Box(); }
extern "C" void h_codes(std::uint8_t *c) { c[0] = Box::TYPE_CODE; c[1] = Circle::TYPE_CODE; c[2] = ConvexPolygon::TYPE_CODE;
  c[3] = Ellipse::TYPE_CODE; c[4] = UnionRegion::TYPE_CODE; c[5] = IntersectionRegion::TYPE_CODE; }
'''
WHICH = ['Region', 'Box', 'Circle', 'ConvexPolygon', 'Ellipse', 'CompoundRegion', 'UnionRegion', 'IntersectionRegion']
CAN = {0: 'bcpeui', 1: 'b', 2: 'c', 3: 'p', 4: 'e', 5: 'ui', 6: 'u', 7: 'i'}
DECODE = '_ZN4lsst7sphgeom6Region6decodeEPKhm'


def run(chk):
    progs = [('default', Program(build.build_ir(HARNESS, 'C09'))),
             ('portable', Program(build.build_ir(HARNESS, 'C09p', defs=['NO_OPTIMIZED_PATHS'])))]
    top = 420 if chk.thorough else 260
    items = []
    for pi in (0, 1):
        for w in range(8):
            ns = [n for n in range(top + 1) if n < 130 or n % 24 in (0, 1, 2) or n % 10 == 0]
            for n in ns:
                items.append((pi, w, n, False))
        items.append((pi, 0, 0, True))
        items.append((pi, 0, 7, True))
        for w in range(1, 5):
            items.append((pi, w, 0, True))
            items.append((pi, w, 33, True))

    m0 = Machine(progs[0][1])
    cp = Ptr(Obj('c', 8, 'heap'), 0)
    m0.call('h_codes', [cp])
    CODES = {chr(k): m0.load(Ptr(cp.obj, i), ['i', 8], 1) for i, k in enumerate(map(ord, 'bcpeui'))}

    def item(c, it):
        pi, w, n, null = it
        pname, prog = progs[pi]
        where = loc_of(prog, r'sphgeom::%s::decode\(unsigned char' % WHICH[w])
        state = {}

        def nested(m, a):
            if len(m.stack) == state['depth'] and not state['seen']:
                state['seen'] = True
                return NotImplemented
            sret, b, k = a
            if b.obj is None:
                raise Alarm('oob', 'operand decode is given a null pointer')
            off = m.canon_s(b.off, 64)
            k = m.canon_u(k, 64)
            end = P(off).add(P(k)).add(P(b.obj.size), -1)
            if -1 in m.signs(P(off)) or 1 in m.signs(end):
                raise Alarm('oob', 'operand decode is given bytes [%s, %s + %s) of a buffer of %d' % (off, off, k, n))
            if m.choose(2, 'nested Region::decode throws') == 1:
                absint.throw_std(m, '_ZTISt13runtime_error')
            state['lens'].append(k)
            r = m.call('h_region', [])
            m.store(sret, r, ['p'], 8)
            return None

        def go(m):
            m.stubs = {DECODE: nested}
            state['seen'] = w != 0
            state['lens'] = []
            state['depth'] = 1
            if null:
                b = NULL
            else:
                o = Obj('buffer', n, 'heap')
                o.tag = 'opaque'
                b = Ptr(o, 0)
                state['buf'] = o
            return m.call('h_dec', [w, b, n])

        opts = {'cov': set(), 'special_loads': pi == 0 and n < 41 and w in (0, 1)}
        k = 0
        for R in explore(prog, go, opts=opts, maxpaths=6000):
            k += 1
            c.partitions += 1
            key = '%s|%s' % (WHICH[w], 'null' if null else 'n')
            if R.alarm:
                c.fail('memory-safe', '%s|%s|%s' % (key, R.alarm.kind, pname), ' < '.join((R.alarm.where or [where])[:3]),
                       '%s build, %s::decode of %d bytes: %s; %s' % (pname, WHICH[w], n, R.alarm, R.path(6)))
                continue
            if R.exc:
                c.fail('exceptions', key + '|escape', where, 'exception %s escapes catch (...)' % R.exc)
                continue
            v = R.value
            c.ok('memory-safe')
            c.expect(v < 256, 'exact-length', key + '|len', where, '%d bytes are accepted as a region whose encoding has another length' % n)
            v &= 255
            if v in (ord('u'), ord('i')) and len(state['lens']) == 2:
                rest = P(state['lens'][0]).add(P(state['lens'][1])).add(P(17 - n))
                c.expect(R.m.signs(rest) == {0}, 'exact-length', key + '|compound-len', where, lambda:
                         '%d bytes are accepted as a compound region although type code, operand lengths and operands need not take up exactly '
                         'that many; %s' % (n, R.path(6)))
            c.expect(v != 3, 'exceptions', key + '|exc', where, '%d bytes: a non-standard exception is thrown' % n)
            c.expect(v in (0, 3) or chr(v) in CAN[w], 'result-kind', key + '|kind', where, '%d bytes: result kind %s' % (n, v))
            leak = [o for o in R.m.heap if o.kind == 'heap' and o.alive]
            c.expect(not leak, 'no-leak', key + '|leak', where, lambda: '%d bytes: %d heap objects are never freed, e.g. the one allocated at %s; %s' % (
                n, len(leak), leak[0].loc, R.path(6)))
            if v not in (0, 2, 3, 4) and not null:
                # a result of some kind implies the buffer starts with its code
                x = state['buf'].cells.get(0)
                ok = x is not None and (x[1] == CODES[chr(v)] if isinstance(x[1], int) else
                                        R.m.signs(P(x[1]).add(P(CODES[chr(v)]), -1)) == {0})
                c.expect(ok, 'kind-from-code', key + '|code', where, '%d bytes: a %r came from type code %s' % (n, chr(v), x))
            if n in (33, 41, 73, 113) and k <= 2 and len(c.samples) < 4:
                c.samples.append('%s build, %s::decode, n=%d: outcome %s via %s' % (pname, WHICH[w], n, v, R.path(4)))
        src_of(prog, c, opts['cov'])
    parallel(chk, items, item)
    chk.need('memory-safe', 2000)
