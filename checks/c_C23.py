"""C23: Python names do what the C++ operations of those names do."""
import glob
import os
import re
import subprocess
import sys
import build
import cxxast
from cxxast import strip, show, subterms, params_in
from framework import parallel

EXPLANATION = (
    'The syntax trees of every binding source and header. Every definition of a Python name is resolved to the C++ function it runs: member pointers by declaration, lambdas and helper functions by '
    'symbolic evaluation of their bodies. The operation called must be the one the Python name stands for, called on self with the arguments in order, its result returned; keyword names must not be those of other parameters; '
    'in-place operations return their object; indexes go through convertIndex, whose bounds are decided for every ordering of index and length; pickling passes every component to the constructor in its order; '
    'constants and class names are those of C++. The Python modules for YAML are checked on their syntax trees.')
ASSUMPTIONS = ['pybind11 itself, and which overload it selects, are trusted']

OPS = {'__eq__': ('operator==', 'op=='), '__ne__': ('operator!=', 'op!='), '__lt__': ('operator<', 'op<'), '__gt__': ('operator>', 'op>'),
       '__le__': ('operator<=', 'op<='), '__ge__': ('operator>=', 'op>='), '__neg__': ('operator-',), '__add__': ('operator+',), '__sub__': ('operator-',),
       '__mul__': ('operator*',), '__rmul__': ('operator*',), '__truediv__': ('operator/',), '__iadd__': ('operator+=',), '__isub__': ('operator-=', 'difference'),
       '__imul__': ('operator*=',), '__itruediv__': ('operator/=',), '__and__': ('operator&', 'intersection'), '__or__': ('operator|', 'join'), '__xor__': ('operator^', 'symmetricDifference'),
       '__invert__': ('operator~', 'complemented'), '__iand__': ('operator&=',), '__ior__': ('operator|=',), '__ixor__': ('operator^=',), '__contains__': ('contains',),
       'union': ('join', 'operator|')}
ALSO = {'intersection': ('operator&',), 'difference': ('operator-',), 'symmetricDifference': ('operator^',)}
# names with rules of their own
SPECIAL = {'__len__', '__getitem__', '__iter__', '__str__', '__repr__', '__reduce__', 'ranges', 'getSubChunksIntersecting', 'cloneOperand', 'getRow', 'getColumn', 'getRegions', '__init__'}
PROTOCOL = set(OPS) | SPECIAL | {'__hash__', '__copy__', '__deepcopy__', '__bool__', '__call__', '__reversed__', '__abs__', '__pos__', '__radd__', '__rsub__', '__getstate__', '__setstate__', '__bytes__',
                                 '__float__', '__int__', '__index__', '__reduce_ex__', '__setitem__', '__delitem__', '__format__', '__rtruediv__', '__floordiv__', '__mod__', '__pow__', '__lshift__', '__rshift__', '__dir__', '__sizeof__', '__enter__', '__exit__', '__next__'}
INPLACE = {'clipTo', 'expandTo', 'dilateBy', 'erodeBy', '__iadd__', '__isub__', '__imul__', '__itruediv__', '__iand__', '__ior__', '__ixor__'}
# what each class is rebuilt from: constructor arguments, as the accessors of its components
STATE = {'Angle': [('asRadians',)], 'NormalizedAngle': [('asRadians',)], 'LonLat': [('getLon',), ('getLat',)], 'Vector3d': [('x',), ('y',), ('z',)],
         'UnitVector3d': [('x',), ('y',), ('z',)], 'AngleInterval': [('getA',), ('getB',)], 'NormalizedAngleInterval': [('getA',), ('getB',)], 'Interval1d': [('getA',), ('getB',)],
         'Box3d': [('x',), ('y',), ('z',)], 'Matrix3d': [('at', i, j) for i in range(3) for j in range(3)], 'RangeSet': [('ranges',)],
         'HtmPixelization': [('getLevel',)], 'Q3cPixelization': [('getLevel',)], 'Mq3cPixelization': [('getLevel',)],
         'Chunker': [('getNumStripes',), ('getNumSubStripesPerStripe',)], 'Box': [('getLon',), ('getLat',)], 'Circle': [('getCenter',), ('getOpeningAngle',)],
         'Ellipse': [('getF1',), ('getF2',), ('getAlpha',)], 'ConvexPolygon': [('getVertices',)], 'UnionRegion': [('operand', 0), ('operand', 1)], 'IntersectionRegion': [('operand', 0), ('operand', 1)]}
SAME = {('x',): [('at', 0)], ('y',): [('at', 1)], ('z',): [('at', 2)]}
CLASSES = ['Angle', 'NormalizedAngle', 'LonLat', 'Vector3d', 'UnitVector3d', 'Matrix3d', 'AngleInterval', 'NormalizedAngleInterval', 'Interval1d', 'Box3d', 'Region', 'Box', 'Circle', 'ConvexPolygon', 'Ellipse',
           'CompoundRegion', 'UnionRegion', 'IntersectionRegion', 'RangeSet', 'Pixelization', 'HtmPixelization', 'Mq3cPixelization', 'Q3cPixelization', 'Chunker']


def includes():
    inc = ['-I' + build.REPO + '/include']
    py = sorted(glob.glob('/usr/include/python3.*/Python.h')) + sorted(glob.glob('/usr/local/include/python3.*/Python.h'))
    pb = sorted(glob.glob('/opt/vp/venv/lib/python3*/site-packages/pybind11/include')) + sorted(glob.glob('/usr/lib/python3*/dist-packages/pybind11/include')) + ['/opt/vp/venv/include']
    pb = [p for p in pb if os.path.exists(p + '/pybind11/pybind11.h')]
    if not py or not pb:
        raise build.AnalysisError('no Python or pybind11 headers')
    return inc + ['-isystem', os.path.dirname(py[0]), '-isystem', pb[0]]


class Binding:
    pass


def class_of(t):
    m = re.search(r'class_<(?:const )?(?:\w+::)*(\w+)', t or '')
    if m:
        return m.group(1)
    if re.search(r'\bmodule_?\b', t or ''):
        return '<module>'
    return None


def find_calls(n):
    if n.get('kind') == 'LambdaExpr':
        return
    if n.get('kind') == 'CXXMemberCallExpr':
        yield n
    for c in n.get('inner', ()):
        if isinstance(c, dict):
            yield from find_calls(c)


DEFS = {'def', 'def_static', 'def_property_readonly', 'def_property', 'def_property_readonly_static', 'def_readonly', 'def_readwrite'}


def bindings(u):
    ev = cxxast.Evaluator(u)
    for fn in u.functions():
        env = {}
        val = cxxast.Value()
        for i, p in enumerate(cxxast.params(fn)):
            env[p['id']] = ('outer', p.get('name'))
        # names of local constants and of named lambdas
        for c in decls_in(cxxast.body(fn)):
            ini = [x for x in c.get('inner', ()) if x.get('kind') and not x['kind'].endswith('Attr')]
            if ini and c['id'] not in env:
                t = ev.ev(ini[-1], env, val, 0)
                env[c['id']] = t if t[0] in ('lambda', 'str', 'lit') else ('outer', c.get('name'))
        for call in find_calls(cxxast.body(fn)):
            inner = [c for c in call['inner'] if c.get('kind')]
            me = inner[0]
            if me.get('kind') != 'MemberExpr' or me.get('name') not in DEFS:
                continue
            obj = [c for c in me.get('inner', ()) if c.get('kind')][0]
            cls = class_of((strip(obj).get('type') or {}).get('qualType')) or class_of((strip(obj).get('type') or {}).get('desugaredQualType')) or class_of((obj.get('type') or {}).get('qualType'))
            b = Binding()
            b.cls, b.kind, b.node, b.unit, b.fn = cls, me['name'], call, u, fn
            b.where = u.where(call)
            args = inner[1:]
            b.name = None
            t = ev.ev(args[0], env, val, 0)
            if t[0] == 'str':
                b.name = t[1]
                args = args[1:]
            b.target = resolve(u, ev, args[0], env) if args else ('none',)
            b.kw = []
            b.default = {}
            b.operator = False
            b.extra = []
            for a in args[1:]:
                s = strip(a)
                if s.get('kind') == 'UserDefinedLiteral':
                    b.kw.append(ev.ev(strip([c for c in s['inner'] if c.get('kind')][1]), env, val, 0)[1])
                elif s.get('kind') == 'CXXOperatorCallExpr' or (s.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and 'arg' in (s.get('type') or {}).get('qualType', '')):
                    t = ev.ev(s, env, val, 0)
                    x = [y for y in subterms(t) if y[0] == 'str']
                    if x:
                        b.kw.append(x[0][1])
                        lits = [y for y in subterms(t) if y[0] == 'lit'][1:] if s.get('kind') == 'CXXOperatorCallExpr' else []
                        if lits:
                            b.default[len(b.kw) - 1] = lits[-1][1]
                elif 'is_operator' in (s.get('type') or {}).get('qualType', ''):
                    b.operator = True
                else:
                    b.extra.append((s.get('type') or {}).get('qualType', ''))
            yield b


def decls_in(n):
    if n.get('kind') == 'LambdaExpr':
        return
    if n.get('kind') == 'VarDecl':
        yield n
    for c in n.get('inner', ()):
        if isinstance(c, dict):
            yield from decls_in(c)


def resolve(u, ev, n, env):
    """('fn', declaration) | ('lambda', function) | ('init', types) | ('initfn', target) | ('pickle', a, b) | ('vec', target)"""
    s = strip(n)
    k = s.get('kind')
    if k == 'LambdaExpr':
        return ('lambda', cxxast.lambda_fn(s))
    if k == 'DeclRefExpr':
        r = s.get('referencedDecl') or {}
        if r.get('id') in env and env[r['id']][0] == 'lambda':
            return env[r['id']]
        if r.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConversionDecl'):
            fn = u.bodies.get(r['id'])
            if fn is not None and fn.get('kind') == 'FunctionDecl' and u.binding_code(fn):
                return ('lambda', fn)
            return ('fn', u.decls.get(r['id']) or r)
        if r.get('kind') == 'VarDecl':
            d = u.decls.get(r['id'])
            if d:
                for c in d.get('inner', ()):
                    if c.get('kind') and not c['kind'].endswith('Attr'):
                        return resolve(u, ev, c, env)
        return ('unknown', r.get('name'))
    if k in ('CallExpr', 'CXXOperatorCallExpr', 'CXXMemberCallExpr'):
        inner = [c for c in s['inner'] if c.get('kind')]
        c0 = strip(inner[0])
        name = (c0.get('referencedDecl') or {}).get('name')
        if name == 'vectorize':
            return ('vec', resolve(u, ev, inner[1], env))
        if name == 'pickle':
            return ('pickle', resolve(u, ev, inner[1], env), resolve(u, ev, inner[2], env))
        if name == 'init':
            if len(inner) > 1:
                return ('initfn', resolve(u, ev, inner[1], env))
            m = re.search(r'constructor<(.*)>', (s.get('type') or {}).get('qualType', ''))
            return ('init', m.group(1) if m else '')
        if name == 'operator()' and len(inner) > 2:      # overload_cast
            return resolve(u, ev, inner[2], env)
        if c0.get('kind') == 'MemberExpr' or len(inner) == 2:
            return resolve(u, ev, inner[1], env) if len(inner) > 1 else ('unknown', name)
    if k in ('CXXConstructExpr', 'InitListExpr', 'CXXTemporaryObjectExpr'):
        inner = [c for c in s.get('inner', ()) if c.get('kind')]
        if len(inner) == 1:
            return resolve(u, ev, inner[0], env)
    return ('unknown', k)


# ---- terms -------------------------------------------------------------------------------------------------------

def component(t, me):
    """which component of `me` a term reads: ('getA',), ('at', i, j), ('operand', i), or None"""
    if t[0] == 'call':
        n, a = t[1], t[2]
        if n == 'cast' and a:
            return component(a[0], me)
        if a and a[0] == me:
            if len(a) == 1:
                return (n,)
            if n == 'operator()' and all(x[0] == 'lit' for x in a[1:]):
                return ('at',) + tuple(int(x[1]) for x in a[1:])
            if n == 'getOperand' and a[1][0] == 'lit':
                return ('operand', int(a[1][1]))
            if n in ('getRow', 'getColumn') and a[1][0] == 'lit':
                return (n, int(a[1][1]))
        if n == 'operator()' and len(a) == 2 and a[1][0] == 'lit' and component(a[0], me) and component(a[0], me)[0] in ('getRow', 'getColumn'):
            c = component(a[0], me)
            i, j = c[1], int(a[1][1])
            return ('at', i, j) if c[0] == 'getRow' else ('at', j, i)
        if n in ('x', 'y', 'z') and len(a) == 1 and component(a[0], me) and component(a[0], me)[0] in ('getRow', 'getColumn'):
            c = component(a[0], me)
            i, j = c[1], 'xyz'.index(n)
            return ('at', i, j) if c[0] == 'getRow' else ('at', j, i)
        if n in ('asRadians',) and len(a) == 1:
            return component(a[0], me)
    if t[0] == 'list' and t[1] == me:
        return ('ranges',)
    return None


def same(c, want):
    return c == want or c in SAME.get(want, ())


SELF = ('param', 0)


def canon(t):
    """elements of a sequence, whichever way the loop reaches them"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'call':
        a = tuple(canon(x) for x in t[2])
        if t[1] in ('begin', 'cbegin') and len(a) == 1:
            return ('elem', a[0])
        if t[1] in ('operator[]', 'at') and len(a) == 2:
            return ('elem', a[0])
        if t[1] in ('operator*', 'operator->') and len(a) == 1:
            return a[0]
        return ('call', t[1], a)
    if t[0] == 'index':
        return ('elem', canon(t[1]))
    return tuple(canon(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t)


def lists_ranges(v):
    """a function that returns the list of (first, last) of every range of its argument"""
    ap = [c[0] for c in v.calls if c[0][1] == 'append']
    if len(ap) != 1 or len(ap[0][2]) != 2:
        return False
    t = ap[0][2][1]
    if t[0] == 'call' and t[1] in ('make_tuple', 'pair', 'make_pair'):
        t = t[2]
    elif t[0] == 'construct':
        t = t[2]
    else:
        return False
    e = ('elem', SELF)

    def part(x, i):
        return x in (('get', i, e), ('field', ('first', 'second')[i], e))
    t = [canon(x) for x in t]
    return len(t) == 2 and part(t[0], 0) and part(t[1], 1) and all(r[0] == 'var' and r == ap[0][2][0] for r in v.returns)


def convert_index(u, fn):
    """The bounds of convertIndex, decided for every ordering of the index relative to -len, 0 and len."""
    v = cxxast.Value()
    body = cxxast.body(fn)
    ps = cxxast.params(fn)
    bad = []

    def run(ln, j, err):
        env = {ps[0]['id']: ln, ps[1]['id']: j}

        class Ret(Exception):
            pass

        def ev(n):
            k = n.get('kind')
            inner = [c for c in n.get('inner', ()) if c.get('kind')]
            if k in cxxast.TRANSPARENT and len(inner) == 1:
                return ev(inner[0])
            if k == 'DeclRefExpr':
                i = n['referencedDecl']['id']
                if i in env:
                    return env[i]
                raise build.AnalysisError('convertIndex reads ' + str(n['referencedDecl'].get('name')))
            if k == 'IntegerLiteral':
                return int(n['value'])
            if k == 'CXXBoolLiteralExpr':
                return bool(n['value'])
            if k == 'UnaryOperator':
                x = ev(inner[0])
                return {'-': lambda: -x, '!': lambda: not x, '+': lambda: x}[n['opcode']]()
            if k == 'BinaryOperator':
                o = n['opcode']
                if o == '&&':
                    return bool(ev(inner[0])) and bool(ev(inner[1]))
                if o == '||':
                    return bool(ev(inner[0])) or bool(ev(inner[1]))
                if o == '=':
                    t = strip(inner[0])
                    env[t['referencedDecl']['id']] = ev(inner[1])
                    return None
                a, b = ev(inner[0]), ev(inner[1])
                return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b, '+': a + b, '-': a - b, '*': a * b}[o]
            if k == 'CompoundAssignOperator':
                t = strip(inner[0])['referencedDecl']['id']
                x = ev(inner[1])
                env[t] = env[t] + x if n['opcode'] == '+=' else env[t] - x
                return env[t]
            if k == 'ConditionalOperator':
                return ev(inner[1]) if ev(inner[0]) else ev(inner[2])
            if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
                c0 = strip(inner[0])
                nm = (c0.get('referencedDecl') or {}).get('name') or c0.get('name')
                if nm == 'PyErr_Occurred':
                    return err
                if nm == 'PyErr_Clear':
                    return None
                if nm and nm.startswith('operator ') and c0.get('inner'):
                    return ev(c0['inner'][0])
                if nm in ('PyLong_AsSsize_t', 'PyLong_AsLong', 'PyLong_AsLongLong', 'PyNumber_AsSsize_t') or nm == 'cast':
                    return env[ps[1]['id']]
                raise build.AnalysisError('convertIndex calls ' + str(nm))
            if k == 'CXXThrowExpr':
                raise Ret('throw')
            if k == 'CXXConstructExpr' and len(inner) == 1:
                return ev(inner[0])
            raise build.AnalysisError('convertIndex: ' + str(k))

        def st(n):
            k = n.get('kind')
            inner = [c for c in n.get('inner', ()) if c.get('kind')]
            if k == 'CompoundStmt':
                for c in inner:
                    st(c)
            elif k == 'DeclStmt':
                for c in inner:
                    env[c['id']] = ev([x for x in c['inner'] if x.get('kind')][-1])
            elif k == 'IfStmt':
                if ev(inner[0]):
                    st(inner[1])
                elif len(inner) > 2:
                    st(inner[2])
            elif k == 'ReturnStmt':
                raise Ret(ev(inner[0]))
            else:
                ev(n)
        try:
            st(body)
        except Ret as r:
            return r.args[0]
        return None
    for ln in (1, 2, 3, 7):
        for j in sorted({-ln - 2, -ln - 1, -ln, -ln + 1, -2, -1, 0, 1, ln - 2, ln - 1, ln, ln + 1}):
            for err in ((False, True) if j == -1 else (False,)):
                r = run(ln, j, err)
                want = 'throw' if err or j < -ln or j >= ln else (j + ln if j < 0 else j)
                if r != want:
                    bad.append('index %d of %d%s gives %s instead of %s' % (j, ln, ' after an error' if err else '', r, want))
    return bad


def placeholders(s):
    return len(re.findall(r'\{[^{}]*\}', s.replace('{{', '').replace('}}', '')))


def cparams(u, decl):
    return [p.get('name') for p in decl.get('inner', ()) if p.get('kind') == 'ParmVarDecl']


def norm(t):
    return re.sub(r'\b(lsst|sphgeom|std)::', '', t or '').replace('const ', '').replace('&', '').replace(' ', '').replace('int32_t', 'int')


def ctor(u, cls, types):
    want = norm(types)
    for d in u.decls.values():
        if d.get('kind') == 'CXXConstructorDecl' and u.parent.get(d['id']) == cls:
            ts = ','.join(norm((p.get('type') or {}).get('qualType')) for p in d.get('inner', ()) if p.get('kind') == 'ParmVarDecl')
            if ts == want:
                return d
    return None


def alike(k, p):
    k, p = k.lower(), (p or '').lower()
    return bool(k) and bool(p) and (k == p or (len(k) > 1 and len(p) > 1 and (k.startswith(p) or p.startswith(k))))


def initial(k, p):
    return bool(p) and len(p) == 1 and any(w[:1].lower() == p.lower() for w in re.findall(r'[A-Za-z][a-z0-9]*', k))


def exact(k, p):
    return k.lower() == (p or '').lower()


def close(k, p):
    return alike(k, p) or initial(k, p)


def keywords(chk, b, names, u, decl):
    where = b.where
    what = '%s.%s' % (b.cls, b.name or '__init__')
    if not b.kw or len(b.kw) != len(names):
        return
    bad = None
    for i in range(len(names)):
        for j in range(i):
            if close(b.kw[i], names[j]) and close(b.kw[j], names[i]) and not (exact(b.kw[i], names[i]) or exact(b.kw[j], names[j])) and \
                    (not (close(b.kw[i], names[i]) and close(b.kw[j], names[j])) or exact(b.kw[i], names[j]) or exact(b.kw[j], names[i])):
                bad = 'keywords "%s" and "%s" of %s set the parameters %s and %s of the C++ function' % (b.kw[j], b.kw[i], what, names[j], names[i])
    chk.expect(bad is None and len(set(b.kw)) == len(b.kw), 'keywords', 'keywords/%s/%s' % (what, ','.join(b.kw)), where, lambda: bad or 'repeated keyword in %s' % what)
    ps = [p for p in decl.get('inner', ()) if p.get('kind') == 'ParmVarDecl']
    for i, d in b.default.items():
        ini = [c for c in ps[i].get('inner', ()) if c.get('kind')] if i < len(ps) else []
        if ini:
            t = cxxast.Evaluator(u).ev(ini[-1], {}, cxxast.Value(), 0)
            lits = [x[1] for x in subterms(t) if x[0] == 'lit']
            if lits:
                chk.expect(lits[-1] == d, 'keywords', 'default/%s/%d' % (what, i), where, 'default of %s of %s is %r in Python and %r in C++' % (b.kw[i], what, d, lits[-1]))


PAIRS = {'clipTo': 'clippedTo', 'expandTo': 'expandedTo', 'dilateBy': 'dilatedBy', 'erodeBy': 'erodedBy', 'complement': 'complemented', 'simplify': 'simplified', 'scale': 'scaled'}
PAIRS.update({v: k for k, v in list(PAIRS.items())})


def targets(name):
    if name in OPS:
        return OPS[name]
    r = (name,) + ALSO.get(name, ())
    return r


def forward(chk, u, b, t):
    """the C++ operation behind an ordinary name"""
    what = '%s.%s' % (b.cls, b.name)
    key = 'forward/%s/%s' % (what, b.where.split(':')[0])
    want = targets(b.name)
    if b.kind.startswith('def_property'):
        want = want + ('get' + b.name[:1].upper() + b.name[1:],)
    if t[0] == 'vec':
        t = t[1]
    if t[0] == 'fn':
        d = t[1]
        owner = u.parent.get(d.get('id'), '')
        chk.expect(d.get('name') in want, 'forward', key, b.where, '%s runs %s::%s' % (what, owner, d.get('name')))
        keywords(chk, b, cparams(u, d), u, d)
        inplace(chk, b, (d.get('type') or {}).get('qualType', ''), what)
        return
    if t[0] != 'lambda' or not t[1]:
        chk.info.setdefault('unresolved', []).append('%s %s' % (b.where, what))
        return
    fn = t[1]
    v = cxxast.Evaluator(u).function(fn)
    chk.functions.add('%s %s' % (b.where, what))
    static = b.kind == 'def_static' or b.cls == '<module>'
    np = len(cxxast.params(fn))
    hits = []
    for c, did, n in v.calls:
        if c[1] not in want:
            continue
        args = list(c[2])
        if static and args and args[0][0] == 'this':
            args = args[1:]
        need = list(range(np))
        got = [next(iter(params_in(x))) if len(params_in(x)) == 1 else None for x in args]
        if not static and args and args[0] != SELF:
            continue
        if got == need:
            hits.append(c)
    cmp = [o[3:] if False else o for o in want if o.startswith('op') and not o.startswith('operator')]
    ok = False
    why = ''
    first = (cxxast.params(fn)[0].get('type') or {}).get('qualType', '') if np else ''
    pair = PAIRS.get(b.name)
    if not hits and pair:
        # the operation on a copy, or the copying operation assigned
        on = [c for c, did, n in v.calls if c[1] == pair and c[2] and c[2][0] == SELF and [next(iter(params_in(x))) if len(params_in(x)) == 1 else None for x in c[2]] == list(range(np))]
        if on and (b.name in INPLACE or 'const' in first or '&' not in first):
            hits = on + [SELF] * (b.name not in INPLACE)
    rets = [r for r in v.returns if r[0] not in ('throw',)]
    if b.name == 'encode':
        ok = encodes(v)
        why = 'returns ' + ' or '.join(show(r) for r in rets)[:200]
    elif b.name == 'decode':
        dec = [c for c, did, n in v.calls if c[1] == 'decode']
        ok = len(dec) == 1 and decodes(dec[0]) and rets == dec
        why = 'returns ' + ' or '.join(show(r) for r in rets)[:200]
    elif hits:
        ok = all(r in hits or (b.name in INPLACE or is_mutator(u, v, hits)) and r in (SELF, ('void',)) for r in rets) and (rets or is_mutator(u, v, hits))
        why = 'returns ' + ' or '.join(show(r) for r in rets)[:200]
        if not rets:
            ok = True
    elif cmp and not static and not has_method(u, b.cls, want[0]):
        # no such operator in C++: comparison of the whole state
        st = STATE.get(b.cls) or []
        op = cmp[0][2:]
        neg = {'==': '!=', '!=': '=='}.get(op)
        for r in rets:
            x = r
            o = op
            if x[0] == 'op' and x[1] == '!' and neg:
                x, o = x[2][0], neg
            ok = x[0] == 'op' and x[1] == o and len(st) == 1 and {(component(x[2][0], SELF), component(x[2][1], ('param', 1))), (component(x[2][0], ('param', 1)), component(x[2][1], SELF))} & {(st[0], st[0])}
        why = 'compares ' + ' or '.join(show(r) for r in rets)[:200]
    elif b.name in ('__eq__', '__ne__') and len(rets) == 1:
        x = rets[0]
        other = OPS['__ne__' if b.name == '__eq__' else '__eq__'][0]
        ok = x[0] == 'op' and x[1] == '!' and x[2][0] in (('call', other, (SELF, ('param', 1))),)
        why = 'returns ' + show(x)[:200]
    elif rets and not [c for c in v.calls if c[0][1]]:
        why = 'returns ' + ' or '.join(show(r) for r in rets)[:200]
    else:
        why = 'calls ' + ', '.join(show(c[0]) for c in v.calls)[:300]
        # names provided by the binding layer alone have no C++ counterpart
        if not has_method(u, b.cls, want[0]) and not static and b.cls != '<module>':
            chk.info.setdefault('python-only', []).append('%s %s' % (b.where, what))
            return
    chk.expect(bool(ok), 'forward', key, b.where, '%s should call %s with its arguments in order and return the result; it %s' % (what, ' or '.join(want), why))
    extra = [c for c, did, n in v.calls if c[2] and c[2][0] == SELF and c not in hits and mutating(u, did) and 'const' not in first]
    chk.expect(not extra, 'forward', key + '/extra', b.where, lambda: '%s also calls %s' % (what, show(extra[0])))
    inplace(chk, b, (fn.get('type') or {}).get('qualType', ''), what)


def mutating(u, did):
    d = u.decls.get(did)
    return bool(d) and d.get('kind') == 'CXXMethodDecl' and d.get('storageClass') != 'static' and not re.search(r'\)\s*const\b', (d.get('type') or {}).get('qualType', ''))


def is_mutator(u, v, hits):
    return any(c in hits and mutating(u, did) for c, did, n in v.calls)


def has_method(u, cls, name):
    seen = set()
    todo = [cls]
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        for d in u.decls.values():
            if d.get('kind') == 'CXXMethodDecl' and d.get('name') == name and u.parent.get(d['id']) == c:
                return True
            if d.get('kind') == 'CXXRecordDecl' and d.get('name') == c:
                for x in d.get('bases', ()):
                    m = re.match(r'(?:\w+::)*(\w+)', x['type']['qualType'])
                    todo.append(m.group(1))
    return False


def inplace(chk, b, typ, what):
    if b.name in INPLACE:
        r = typ.split('(')[0].replace('auto ', '')
        if '->' in typ:
            r = typ.split('->')[-1]
        chk.expect(r.strip().endswith('&') or r.strip().endswith('*'), 'in-place', 'inplace/' + what, b.where, '%s returns a copy (%s) instead of its object' % (what, r.strip()))


def special(chk, u, b, t, lens, reduces, inits):
    what = '%s.%s' % (b.cls, b.name)
    key = what + '/' + b.where.split(':')[0]
    if t[0] == 'vec':
        t = t[1]
    if t[0] == 'fn':
        d = t[1]
        want = {'__len__': ('size',), '__str__': ('toString',), '__repr__': ('toString',)}.get(b.name, (b.name,))
        if b.name == '__getitem__':
            chk.fail('index', 'index/' + key, b.where, '%s passes the index to %s without a check' % (what, d.get('name')))
        else:
            chk.expect(d.get('name') in want, 'forward', 'forward/' + key, b.where, '%s runs %s' % (what, d.get('name')))
        if b.name == '__len__':
            lens[b.cls] = ('call', d.get('name'), (SELF,))
        return
    if t[0] != 'lambda' or not t[1]:
        chk.info.setdefault('unresolved', []).append('%s %s' % (b.where, what))
        return
    fn = t[1]
    v = cxxast.Evaluator(u).function(fn)
    chk.functions.add('%s %s' % (b.where, what))
    rets = [r for r in v.returns if r[0] != 'throw']
    flat = []
    for r in rets:
        flat += list(r[1:]) if r[0] == 'choice' else [r]
    rets = flat
    n = b.name
    if n == '__len__':
        if len(rets) == 1:
            lens[b.cls] = rets[0]
    elif n in ('__getitem__', 'getRow', 'getColumn', 'cloneOperand'):
        for r in rets:
            uses = [x for x in subterms(r) if x[0] == 'call' and x[1] == 'convertIndex']
            raw = index_outside(r)
            deleg = [x for x in subterms(r) if x[0] == 'call' and x[1] == 'attr']
            if deleg:
                tup = deleg[0][2][0]
                st = STATE.get(b.cls, [])
                comps = [component(x, SELF) for x in (tup[2] if tup[0] in ('call', 'construct') else ())]
                chk.expect(comps == st and deleg[0][2][1] == ('str', n), 'index', 'index/' + key, b.where, '%s indexes %s instead of its components' % (what, show(tup)[:200]))
                continue
            chk.expect(not raw, 'index', 'index/' + key, b.where, lambda: '%s uses an unchecked index: %s' % (what, show(r)[:200]))
            for x in uses:
                chk.expect(index_len(u, b.cls, x[2][0], lens), 'index', 'length/%s' % key, b.where, '%s checks its index against %s' % (what, show(x[2][0])[:100]))
            if n in ('getRow', 'getColumn'):
                chk.expect(r[0] == 'call' and r[1] == n and r[2][0] == SELF, 'forward', 'forward/' + key, b.where, '%s returns %s' % (what, show(r)[:200]))
            if n == 'cloneOperand':
                chk.expect(r[0] == 'call' and r[1] == 'clone' and r[2][0][0] == 'call' and r[2][0][1] == 'getOperand' and r[2][0][2][0] == SELF, 'forward', 'forward/' + key, b.where, '%s returns %s' % (what, show(r)[:200]))
            if n == '__getitem__':
                good = 0 in params_in(r)
                order = [x for y in (r[2][1:] if r[0] == 'call' and isinstance(r[2], tuple) else ()) for x in subterms(y) if x[0] == 'call' and x[1] == 'operator[]' and x[2][1][0] == 'lit']
                good = good and [x[2][1][1] for x in order] == sorted(x[2][1][1] for x in order)
                chk.expect(good, 'index', 'element/%s/%d' % (key, len(uses)), b.where, '%s returns %s' % (what, show(r)[:200]))
    elif n == '__iter__':
        for r in rets:
            deleg = [x for x in subterms(r) if x[0] == 'call' and x[1] == 'attr']
            if deleg:
                tup = deleg[0][2][0]
                comps = [component(x, SELF) for x in (tup[2] if tup[0] in ('call', 'construct') else ())]
                chk.expect(comps == STATE.get(b.cls, comps), 'index', 'index/' + key, b.where, '%s iterates over %s' % (what, show(tup)[:200]))
    elif n in ('__str__', '__repr__'):
        for c, did, node in v.calls:
            if c[1] != 'format' or c[2][0][0] != 'str':
                continue
            fmt, args = c[2][0][1], c[2][1:]
            chk.expect(placeholders(fmt) == len(args), 'text', 'text/' + key, b.where, '%s: %d placeholders, %d values' % (what, placeholders(fmt), len(args)))
            st = STATE.get(b.cls)
            comps = [component(x, SELF) for x in args]
            if st and st != [('ranges',)] and None not in comps:
                chk.expect(len(comps) == len(st) and all(same(c, s) for c, s in zip(comps, st)), 'text', 'components/' + key, b.where, lambda: '%s shows %s' % (what, ', '.join(show(a) for a in args)[:300]))
            if n == '__repr__':
                m = re.match(r'(\w+)', fmt)
                chk.expect(bool(m) and m.group(1) == b.cls, 'text', 'name/' + key, b.where, '%s starts with %s' % (what, fmt[:30]))
    elif n == '__reduce__':
        rebuilt(chk, u, b, rets, v, key, what, inits)
    elif n == 'ranges':
        chk.expect(lists_ranges(v), 'forward', 'forward/' + key, b.where, '%s does not list (first, last) of every range' % what)
    elif n == 'getSubChunksIntersecting':
        ap = [c[0] for c in v.calls if c[0][1] == 'append']
        call = ('call', n, (SELF, ('param', 1)))
        e = ('elem', call)
        flds = []
        if ap:
            x = ap[0][2][1]
            flds = [canon(y) for y in x[2]] if x[0] in ('call', 'construct') else []
        chk.expect(flds in ([('field', 'chunkId', e), ('field', 'subChunkIds', e)], [('get', 0, e), ('get', 1, e)]), 'forward', 'forward/' + key, b.where, '%s lists %s' % (what, ', '.join(show(x) for x in flds)[:300]))
    elif n == 'getRegions':
        forward(chk, u, b, t)


def index_outside(t):
    """an argument other than self that did not go through convertIndex"""
    if t[0] == 'call' and t[1] == 'convertIndex':
        return False
    if t[0] == 'param':
        return t[1] > 0
    for x in t[1:]:
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str):
                if index_outside(x):
                    return True
            elif any(isinstance(y, tuple) and y and index_outside(y) for y in x):
                return True
    return False


def element_of(t):
    return t == SELF or (t[0] == 'call' and t[1] in ('begin', 'getRow', 'data', 'cbegin') and t[2] and t[2][0] == SELF)


LENGTH = {'CompoundRegion': 2}


def index_len(u, cls, t, lens):
    want = lens.get(cls)
    if cls in LENGTH:
        return t == ('lit', float(LENGTH[cls]))
    if want is None:
        return True
    return t == want


def rebuilt(chk, u, b, rets, v, key, what, inits):
    st = STATE.get(b.cls)
    for r in rets:
        if r[0] not in ('call', 'construct') or len(r[2]) != 2:
            chk.fail('pickle', 'pickle/' + key, b.where, '%s returns %s' % (what, show(r)[:200]))
            continue
        cls, args = r[2]
        args = args[2] if args[0] in ('call', 'construct') and args[1] != 'ranges' else ()
        comps = [component(x, SELF) or list_component(u, x) for x in args]
        ok = st is not None and len(comps) == len(st) and all(same(c, s) for c, s in zip(comps, st))
        # a list of ranges is built by the helper; it appears as its variable
        if st == [('ranges',)] and len(args) == 1:
            ok = args[0][0] == 'var' and lists_ranges_of(v, args[0])
        chk.expect(ok, 'pickle', 'pickle/' + key, b.where, lambda: '%s passes (%s) to the constructor, which takes %s' % (what, ', '.join(show(x) for x in args)[:300], st))
        if ok and st != [('ranges',)]:
            chk.expect(any(len([x for x in i.split(',') if x.strip()]) == len(st) for i in inits.get(b.cls, ())), 'pickle', 'constructor/' + key, b.where, '%s has no constructor of %d arguments' % (b.cls, len(st)))


def list_component(u, x):
    return None


def lists_ranges_of(v, var):
    w = cxxast.Value()
    w.calls = v.calls
    w.returns = [var]
    return lists_ranges(w)


def pickled(chk, u, b, t):
    what = b.cls
    key = 'pickle/' + b.cls
    get, put = t[1], t[2]
    if get[0] != 'lambda' or put[0] != 'lambda' or not get[1] or not put[1]:
        chk.info.setdefault('unresolved', []).append('%s pickle of %s' % (b.where, what))
        return
    g = cxxast.Evaluator(u).function(get[1])
    p = cxxast.Evaluator(u).function(put[1])
    chk.functions.add('%s pickle of %s' % (b.where, what))
    if any(c[0][1] == 'encode' for c in g.calls):
        chk.expect(encodes(g), 'pickle', key + '/get', b.where, '%s is pickled as %s' % (what, ' | '.join(show(r) for r in g.returns)[:200]))
        dec = [(c, did) for c, did, n in p.calls if c[1] == 'decode']
        owner = u.parent.get(dec[0][1], '') if dec else ''
        chk.expect(len(dec) == 1 and owner in (b.cls, 'Region') and decodes(dec[0][0]) and p.returns == [dec[0][0]], 'pickle', key + '/set', b.where,
                   '%s is unpickled by %s::decode: %s' % (what, owner, ' | '.join(show(r) for r in p.returns)[:200]))
        return
    st = STATE.get(b.cls) or []
    for r in g.returns:
        args = r[2] if r[0] in ('call', 'construct') else ()
        comps = [component(x, SELF) for x in args]
        chk.expect(len(comps) == len(st) and all(same(c, s) for c, s in zip(comps, st)), 'pickle', key + '/get', b.where, '%s is pickled as %s' % (what, show(r)[:200]))
    for r in p.returns:
        if r[0] == 'throw':
            continue
        args = r[2] if r[0] in ('call', 'construct') else ()
        idx = [[x[2][1][1] for x in subterms(a) if x[0] == 'call' and x[1] == 'operator[]' and x[2][1][0] == 'lit'] for a in args]
        chk.expect(idx == [[float(i)] for i in range(len(st))], 'pickle', key + '/set', b.where, '%s is unpickled as %s' % (what, show(r)[:200]))
        if b.cls == 'UnitVector3d':
            chk.expect(r[0] == 'call' and r[1] == 'fromNormalized', 'pickle', key + '/exact', b.where, '%s is normalized again when unpickled: %s' % (what, show(r)[:200]))


def encodes(g):
    """bytes(data, size) of self.encode()"""
    e = ('call', 'encode', (SELF,))
    for r in g.returns:
        if r[0] not in ('construct', 'call'):
            return False
        a = r[2]
        if len(a) == 2 and a[0] in (('call', 'data', (e,)), ('index', e, ('lit', 0.0))) and a[1] == ('call', 'size', (e,)):
            continue
        return False
    return bool(g.returns)


def decodes(c):
    a = [x for x in c[2] if x != ('this',)]
    if len(a) == 1:
        return params_in(a[0]) == {0}
    return len(a) == 2 and params_in(a[0]) == {0} and params_in(a[1]) == {0}


def attributes(chk, u):
    """cls.attr("NAME") = value: the C++ constant of the same name"""
    ev = cxxast.Evaluator(u)
    for fn in u.functions():
        env = {p['id']: ('outer', p.get('name')) for p in cxxast.params(fn)}

        def walk(n):
            if n.get('kind') == 'CXXOperatorCallExpr':
                inner = [c for c in n.get('inner', ()) if c.get('kind')]
                c0 = strip(inner[0])
                if (c0.get('referencedDecl') or {}).get('name') == 'operator=' and len(inner) == 3:
                    l = ev.ev(inner[1], env, cxxast.Value(), 0)
                    if l[0] == 'call' and l[1] == 'attr' and len(l[2]) == 2 and l[2][1][0] == 'str':
                        obj = strip(inner[1])
                        name = l[2][1][1]
                        owner = None

                        def oc(m):
                            nonlocal owner
                            t = class_of((m.get('type') or {}).get('qualType'))
                            if m.get('kind') == 'DeclRefExpr' and t:
                                owner = t
                            for c in m.get('inner', ()):
                                if isinstance(c, dict):
                                    oc(c)
                        oc(inner[1])
                        r = ev.ev(inner[2], env, cxxast.Value(), 0)
                        g = [x for x in subterms(r) if x[0] == 'global']
                        what = '%s.%s' % (owner, name)
                        if g:
                            good = any(x[2] == name and (owner in ('<module>', None) or x[1] in ('', owner)) for x in g)
                            chk.expect(good, 'constants', 'constant/' + what, u.where(n), '%s is %s' % (what, ', '.join('%s::%s' % (x[1], x[2]) for x in g)))
            for c in n.get('inner', ()):
                if isinstance(c, dict):
                    walk(c)
        walk(cxxast.body(fn))


def module(chk, u):
    """every class is created under its own name, with its base, and defined"""
    made = {}
    defined = {}
    calls = set()

    def walk(n):
        if n.get('kind') == 'VarDecl' and class_of((n.get('type') or {}).get('qualType')) not in (None, '<module>'):
            cls = class_of(n['type']['qualType'])
            strs = []

            def w2(m):
                if m.get('kind') == 'StringLiteral':
                    import json
                    strs.append(json.loads(m['value']))
                for c in m.get('inner', ()):
                    if isinstance(c, dict):
                        w2(c)
            w2(n)
            if strs:
                made[n['id']] = (cls, strs[0], n['type']['qualType'], n)
        if n.get('kind') == 'CallExpr':
            inner = [c for c in n.get('inner', ()) if c.get('kind')]
            nm = (strip(inner[0]).get('referencedDecl') or {}).get('name') or ''
            if nm == 'defineClass' and len(inner) == 2:
                i = (strip(inner[1]).get('referencedDecl') or {}).get('id')
                defined[i] = defined.get(i, 0) + 1
            calls.add(nm)
        for c in n.get('inner', ()):
            if isinstance(c, dict):
                walk(c)
    for fn in u.functions():
        walk(cxxast.body(fn))
    if not made:
        return
    for i, (cls, name, typ, n) in made.items():
        chk.expect(cls == name, 'module', 'module/' + cls, u.where(n), 'class %s is called %s in Python' % (cls, name))
        chk.expect(defined.get(i) == 1, 'module', 'defined/' + cls, u.where(n), 'the members of %s are not defined' % cls)
    names = {x[0] for x in made.values()}
    for c in CLASSES:
        chk.expect(c in names, 'module', 'exists/' + c, '_sphgeom.cc', 'there is no class %s in the module' % c)
    for f in ('defineCurve', 'defineOrientation', 'defineRelationship', 'defineUtils'):
        if any(x.get('name') == f for x in u.decls.values()):
            chk.expect(f in calls, 'module', 'called/' + f, '_sphgeom.cc', f + ' is not called')


def one(chk, f):
    if f.endswith('.py'):
        import pychk
        return pychk.check(chk, f)
    u = cxxast.Unit(f, build.REPO, includes())
    bs = list(bindings(u))
    lens, reduces, inits = {}, {}, {}
    for b in bs:
        if b.target[0] == 'init':
            inits.setdefault(b.cls, []).append(b.target[1])
        elif b.target[0] == 'initfn':
            inits.setdefault(b.cls, []).append(','.join('?' for p in cxxast.params(b.target[1][1])) if b.target[1][0] == 'lambda' and b.target[1][1] else '?')
    for b in bs:
        if b.name == '__len__' and b.cls:
            special(chk, u, b, b.target, lens, reduces, inits)
    for b in bs:
        t = b.target
        if b.cls is None:
            continue
        if t[0] == 'init':
            d = ctor(u, b.cls, t[1])
            if d is not None:
                keywords(chk, b, cparams(u, d), u, d)
            chk.ok('bindings')
        elif t[0] == 'initfn':
            fn = t[1]
            if fn[0] == 'lambda' and fn[1]:
                v = cxxast.Evaluator(u).function(fn[1])
                np = len(cxxast.params(fn[1]))
                for c, did, n in v.calls:
                    if b.cls == 'RangeSet' and c[1] == 'insert' and len(c[2]) == 3:
                        idx = [[y[2][1][1] for y in subterms(x) if y[0] == 'call' and y[1] in ('PySequence_GetItem', 'operator[]') and y[2][1][0] == 'lit'] for x in c[2][1:]]
                        chk.expect(idx == [[0.0], [1.0]] or idx == [[], []], 'pickle', 'pickle/RangeSet/items', u.where(n), 'a pair of integers is inserted as ' + show(c)[:200])
                for r in v.returns:
                    got = [next(iter(params_in(x))) if len(params_in(x)) == 1 else None for x in r[2]] if r[0] in ('construct', 'call') else None
                    if np == 1 and r[0] == 'construct' and len(r[2]) > 1:
                        comps = [component(x, SELF) for x in r[2]]
                        st = STATE.get(b.cls) or []
                        chk.expect(len(comps) == len(st) and all(same(c, w) for c, w in zip(comps, st)), 'forward', 'init/%s/%d' % (b.cls, np), b.where, 'the constructor of %s gets %s' % (b.cls, show(r)[:200]))
                    elif np == 1 and r[0] == 'call' and component(r, SELF) and len(STATE.get(b.cls) or []) == 1 and r[2] == (SELF,):
                        chk.expect(same((r[1],), STATE[b.cls][0]) or r[1] not in ('asDegrees', 'asRadians'), 'forward', 'init/%s/%d' % (b.cls, np), b.where, 'the constructor of %s gets %s' % (b.cls, show(r)[:200]))
                    elif got is not None and r[0] == 'construct':
                        chk.expect(got == list(range(np)), 'forward', 'init/%s/%d' % (b.cls, np), b.where, 'the constructor of %s gets %s' % (b.cls, show(r)[:200]))
            chk.ok('bindings')
        elif t[0] == 'pickle':
            pickled(chk, u, b, t)
            chk.ok('bindings')
        elif b.name is None:
            chk.info.setdefault('unresolved', []).append(b.where)
        else:
            dunder = b.name.startswith('__')
            chk.expect(not dunder or b.name in PROTOCOL, 'bindings', 'name/%s.%s' % (b.cls, b.name), b.where, '%s.%s is not a name Python knows' % (b.cls, b.name))
            if dunder and b.name not in PROTOCOL:
                continue
            if b.name in SPECIAL:
                if b.name != '__len__':
                    special(chk, u, b, t, lens, reduces, inits)
            elif dunder and b.name not in OPS:
                pass
            else:
                forward(chk, u, b, t)
    attributes(chk, u)
    module(chk, u)
    for fn in u.decls.values():
        if fn.get('name') == 'convertIndex' and fn.get('kind') == 'FunctionDecl' and cxxast.body(fn) is not None:
            bad = convert_index(u, fn)
            chk.expect(not bad, 'index', 'convertIndex', u.where(fn), lambda: bad[0])
            break


def run(chk):
    files = sorted(glob.glob(build.REPO + '/python/lsst/sphgeom/*.cc'))
    parallel(chk, files + [build.REPO + '/python/lsst/sphgeom/_yaml.py', build.REPO + '/python/lsst/sphgeom/_healpixPixelization.py', build.REPO + '/python/lsst/sphgeom/pixelization_abc.py'], one)
    chk.need('bindings', 450)
    chk.need('forward', 400)
    chk.need('pickle', 20)
    chk.need('index', 12)
