"""Syntax trees of C++ translation units (clang's JSON dump), and the symbolic value of expressions and small functions in them.

Nothing is run: a function's value is a term over its parameters, local variables are replaced by their
initialisers, helper functions of the same layer are expanded, casts and copies disappear."""
import json
import os
import re
import subprocess
import build

TRANSPARENT = {'ImplicitCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr', 'CStyleCastExpr',
               'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr', 'SubstNonTypeTemplateParmExpr',
               'ConstantExpr', 'FullExpr', 'CXXStdInitializerListExpr', 'ArrayInitLoopExpr', 'CXXDynamicCastExpr'}


class Unit:
    def __init__(self, path, repo, args, filt='lsst::sphgeom'):
        cmd = ['clang++', '-std=c++17', '-DNDEBUG', '-fsyntax-only', '-w'] + args + ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, path]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise build.AnalysisError('%s does not compile: %s' % (path, r.stderr[:600]))
        self.path, self.repo = path, os.path.realpath(repo)
        self.roots = []
        dec, s, i = json.JSONDecoder(), r.stdout, 0
        while True:
            while i < len(s) and s[i] in ' \n\r\t':
                i += 1
            if i >= len(s):
                break
            if s[i] != '{':
                j = s.find('\n', i)
                i = len(s) if j < 0 else j + 1
                continue
            o, i = dec.raw_decode(s, i)
            self.roots.append(o)
        self.decls = {}
        self.parent = {}
        self.bodies = {}
        self.file = None
        self.line = None
        for o in self.roots:
            self._index(o, None, ())
        # a definition and its declarations share one body
        for k, d in list(self.decls.items()):
            p = d.get('previousDecl')
            if p and k in self.bodies:
                self.bodies.setdefault(p, self.bodies[k])
                if p in self.parent:
                    self.parent[k] = self.parent[p]

    def _loc(self, l):
        if not isinstance(l, dict):
            return
        for k, v in l.items():
            if k == 'file':
                self.file = v
            elif k == 'line':
                self.line = v
            elif k in ('spellingLoc', 'expansionLoc', 'begin', 'end'):
                self._loc(v)

    def _index(self, n, rec, path):
        if not isinstance(n, dict):
            return
        if 'loc' in n:
            self._loc(n['loc'])
        if 'range' in n and isinstance(n['range'], dict):
            self._loc(n['range'].get('begin'))
            n['_file'], n['_line'] = self.file, self.line
            self._loc(n['range'].get('end'))
        k = n.get('kind', '')
        if k.endswith('Decl') and 'id' in n:
            self.decls[n['id']] = n
            if rec is not None:
                self.parent[n['id']] = rec
            n['_path'] = path
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') and n.get('name'):
            rec = n['name']
        for c in n.get('inner', ()):
            self._index(c, rec, path + (n.get('name') or '',) if k == 'NamespaceDecl' else path)
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl'):
            for c in n.get('inner', ()):
                if isinstance(c, dict) and c.get('kind') == 'CompoundStmt':
                    self.bodies[n['id']] = n

    def where(self, n):
        f = n.get('_file') or self.path
        f = os.path.realpath(os.path.join(os.path.dirname(self.path), f)) if not os.path.isabs(f) else os.path.realpath(f)
        if f.startswith(self.repo + '/'):
            f = f[len(self.repo) + 1:]
        return '%s:%s' % (f, n.get('_line') or '?')

    def binding_code(self, n):
        w = self.where(n)
        return w.startswith('python/') or '/python/' in w

    def functions(self):
        """Functions of the binding layer with bodies; of templates only the instantiations."""
        def walk(n, intemplate):
            k = n.get('kind')
            if k == 'FunctionTemplateDecl':
                fs = [c for c in n.get('inner', ()) if c.get('kind') in ('FunctionDecl', 'CXXMethodDecl')]
                for c in fs[1:]:
                    yield from walk(c, True)
                return
            if k in ('FunctionDecl', 'CXXMethodDecl') and n['id'] in self.bodies and self.bodies[n['id']] is n and self.binding_code(n):
                yield n
            if k in ('NamespaceDecl', 'LinkageSpecDecl'):
                for c in n.get('inner', ()):
                    yield from walk(c, intemplate)
        for o in self.roots:
            yield from walk(o, False)


def params(fn):
    return [c for c in fn.get('inner', ()) if c.get('kind') == 'ParmVarDecl']


def body(fn):
    for c in fn.get('inner', ()):
        if c.get('kind') == 'CompoundStmt':
            return c
    return None


def strip(n):
    while n.get('kind') in TRANSPARENT or (n.get('kind') == 'UnaryOperator' and n.get('opcode') == '&'):
        kids = [c for c in n.get('inner', ()) if c.get('kind')]
        if len(kids) != 1:
            break
        n = kids[0]
    return n


def lambda_fn(n):
    for c in n.get('inner', ()):
        if c.get('kind') == 'CXXRecordDecl':
            for m in c.get('inner', ()):
                if m.get('kind') == 'CXXMethodDecl' and m.get('name') == 'operator()' and body(m):
                    return m
                if m.get('kind') == 'FunctionTemplateDecl':
                    fs = [x for x in m.get('inner', ()) if x.get('kind') == 'CXXMethodDecl' and body(x)]
                    if fs:
                        return fs[-1]
    return None


class Value:
    """Symbolic value of a function: terms returned, calls made, and what guards them."""
    def __init__(self):
        self.returns = []
        self.calls = []
        self.throws = 0
        self.unknown = []


class Evaluator:
    def __init__(self, unit, inline=True):
        self.u = unit
        self.inline = inline

    def function(self, fn, args=None, depth=0, val=None):
        val = val or Value()
        env = {}
        for i, p in enumerate(params(fn)):
            env[p['id']] = args[i] if args is not None and i < len(args) else ('param', i)
        self.stmt(body(fn), env, val, depth)
        return val

    def stmt(self, n, env, val, depth):
        k = n.get('kind')
        if not k:
            return
        inner = [c for c in n.get('inner', ()) if c.get('kind')]
        if k == 'DeclStmt':
            for c in inner:
                if c['kind'] == 'VarDecl':
                    ini = [x for x in c.get('inner', ()) if x.get('kind') and not x['kind'].endswith('Attr')]
                    env[c['id']] = self.ev(ini[-1], env, val, depth) if ini else ('var', c.get('name'))
                    if env[c['id']][0] in ('construct',) and not env[c['id']][2]:
                        env[c['id']] = ('var', c.get('name'), c['id'])
                elif c['kind'] == 'DecompositionDecl':
                    ini = [x for x in c.get('inner', ()) if x.get('kind') and x['kind'] != 'BindingDecl']
                    t = self.ev(ini[-1], env, val, depth) if ini else ('var', '?')
                    for i, b in enumerate([x for x in c.get('inner', ()) if x.get('kind') == 'BindingDecl']):
                        env[b['id']] = ('get', i, t)
        elif k == 'ReturnStmt':
            val.returns.append(self.ev(inner[0], env, val, depth) if inner else ('void',))
        elif k == 'CXXForRangeStmt':
            rng = None
            for c in inner[:-1]:
                if c['kind'] == 'DeclStmt':
                    for v in c.get('inner', ()):
                        if v.get('kind') not in ('VarDecl', 'DecompositionDecl'):
                            continue
                        nm = v.get('name') or ''
                        ini = [x for x in v.get('inner', ()) if x.get('kind') and x['kind'] != 'BindingDecl']
                        if nm.startswith('__range'):
                            rng = self.ev(ini[-1], env, val, depth)
                        elif nm.startswith('__begin') or nm.startswith('__end'):
                            pass
                        elif v['kind'] == 'DecompositionDecl':
                            for i, b in enumerate([x for x in v.get('inner', ()) if x.get('kind') == 'BindingDecl']):
                                env[b['id']] = ('get', i, ('elem', rng))
                        else:
                            env[v['id']] = ('elem', rng)
            self.stmt(inner[-1], env, val, depth)
        elif k in ('CompoundStmt', 'IfStmt', 'ForStmt', 'WhileStmt', 'DoStmt', 'SwitchStmt', 'CaseStmt', 'DefaultStmt', 'CXXTryStmt', 'CXXCatchStmt', 'LabelStmt', 'AttributedStmt'):
            for c in inner:
                self.stmt(c, env, val, depth)
        elif k in ('NullStmt', 'BreakStmt', 'ContinueStmt', 'VarDecl'):
            pass
        elif k.endswith('Stmt') and k != 'DeclStmt':
            val.unknown.append(k)
        else:
            t = self.ev(n, env, val, depth)
            if t[0] == 'assign':
                env[t[1]] = t[2]

    def ev(self, n, env, val, depth):
        k = n.get('kind')
        inner = [c for c in n.get('inner', ()) if c.get('kind')]
        if k in TRANSPARENT and len(inner) == 1:
            return self.ev(inner[0], env, val, depth)
        if k == 'DeclRefExpr':
            r = n.get('referencedDecl') or {}
            if r.get('id') in env:
                return env[r['id']]
            rk = r.get('kind')
            if rk in ('FunctionDecl', 'CXXMethodDecl'):
                return ('fn', r.get('name'), r.get('id'))
            if rk == 'EnumConstantDecl':
                return ('enum', r.get('name'))
            d = self.u.decls.get(r.get('id')) or {}
            return ('global', self.u.parent.get(r.get('id')) or '', r.get('name'))
        if k in ('IntegerLiteral', 'FloatingLiteral', 'CharacterLiteral'):
            try:
                return ('lit', float(n['value']))
            except ValueError:
                return ('lit', n['value'])
        if k == 'CXXBoolLiteralExpr':
            return ('lit', bool(n['value']))
        if k == 'StringLiteral':
            try:
                return ('str', json.loads(n['value']))
            except ValueError:
                return ('str', n['value'])
        if k == 'CXXThisExpr':
            return ('this',)
        if k == 'UnaryOperator':
            t = self.ev(inner[0], env, val, depth)
            if n['opcode'] in ('&', '*', '+'):
                return t
            if n['opcode'] == '-' and t[0] == 'lit':
                return ('lit', -t[1])
            return ('op', n['opcode'], (t,))
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            l = strip(inner[0])
            a, b = self.ev(inner[0], env, val, depth), self.ev(inner[1], env, val, depth)
            if n['opcode'] == '=' and l.get('kind') == 'DeclRefExpr':
                return ('assign', l['referencedDecl']['id'], b)
            return ('op', n['opcode'], (a, b))
        if k == 'ConditionalOperator':
            return ('cond',) + tuple(self.ev(c, env, val, depth) for c in inner)
        if k == 'ArraySubscriptExpr':
            return ('index', self.ev(inner[0], env, val, depth), self.ev(inner[1], env, val, depth))
        if k == 'MemberExpr':
            return ('field', n.get('name'), self.ev(inner[0], env, val, depth) if inner else ('this',))
        if k == 'CXXThrowExpr':
            val.throws += 1
            return ('throw',)
        if k in ('CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CallExpr', 'UserDefinedLiteral'):
            callee = inner[0]
            while callee.get('kind') in TRANSPARENT or callee.get('kind') == 'UnaryOperator':
                callee = [c for c in callee.get('inner', ()) if c.get('kind')][0]
            args = [self.ev(c, env, val, depth) for c in inner[1:] if c['kind'] != 'CXXDefaultArgExpr']
            did, name = None, None
            if callee.get('kind') == 'MemberExpr':
                name, did = callee.get('name'), callee.get('referencedMemberDecl')
                sub = [c for c in callee.get('inner', ()) if c.get('kind')]
                args = [self.ev(sub[0], env, val, depth) if sub else ('this',)] + args
            elif callee.get('kind') == 'DeclRefExpr':
                r = callee.get('referencedDecl') or {}
                name, did = r.get('name'), r.get('id')
                if did in env and env[did][0] == 'lambda':
                    return self.expand(env[did][1], args, val, depth, env)
            elif callee.get('kind') == 'LambdaExpr':
                return self.expand(lambda_fn(callee), args, val, depth, env)
            if k == 'CXXOperatorCallExpr' and name == 'operator=' and inner[1:]:
                l = strip(inner[1])
                if l.get('kind') == 'DeclRefExpr' and l['referencedDecl']['id'] in env:
                    return ('assign', l['referencedDecl']['id'], args[1])
            if k == 'CXXOperatorCallExpr' and args and args[0][0] == 'lambda' and name == 'operator()':
                return self.expand(args[0][1], args[1:], val, depth, env)
            if name in ('move', 'forward', 'as_const', 'cast', 'ref', 'cref', 'addressof') and len(args) == 1:
                return args[0]
            if name and name.startswith('operator ') and len(args) == 1:
                return args[0]
            if name == 'get' and len(args) == 1:
                m = re.search(r'element_t<(\d+)', ((callee.get('referencedDecl') or {}).get('type') or {}).get('qualType', ''))
                if m:
                    return ('get', int(m.group(1)), args[0])
            fn = self.u.bodies.get(did)
            if fn is not None and self.inline and depth < 6 and self.u.binding_code(fn) and fn.get('kind') == 'FunctionDecl' and name != 'convertIndex':
                return self.expand(fn, args, val, depth, None)
            t = ('call', name, tuple(args))
            val.calls.append((t, did, n))
            return t
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr', 'CXXUnresolvedConstructExpr'):
            args = [self.ev(c, env, val, depth) for c in inner if c['kind'] != 'CXXDefaultArgExpr']
            if len(args) == 1 and k != 'InitListExpr':
                return args[0]
            t = ('construct', (n.get('type') or {}).get('qualType', '').replace('const ', '').split('::')[-1], tuple(args))
            return t
        if k == 'CXXNewExpr':
            return self.ev(inner[-1], env, val, depth) if inner else ('construct', '', ())
        if k == 'LambdaExpr':
            return ('lambda', lambda_fn(n))
        if k == 'CXXDefaultArgExpr':
            return ('default',)
        for c in inner:
            if len(inner) == 1:
                return self.ev(c, env, val, depth)
        for c in inner:
            self.ev(c, env, val, depth)
        return ('other', k)

    def expand(self, fn, args, val, depth, env):
        if fn is None or depth > 6:
            return ('other', 'call')
        sub = Value()
        e = dict(env) if env is not None else {}
        for i, p in enumerate(params(fn)):
            e[p['id']] = args[i] if i < len(args) else ('default',)
        self.stmt(body(fn), e, sub, depth + 1)
        val.calls += sub.calls
        val.throws += sub.throws
        val.unknown += sub.unknown
        r = [x for x in sub.returns if x != ('throw',)]
        if len(r) == 1:
            return r[0]
        if not r:
            return ('void',)
        return ('choice',) + tuple(r)


def subterms(t):
    yield t
    for x in t[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield from subterms(x)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple) and y:
                    yield from subterms(y)


def params_in(t):
    return {x[1] for x in subterms(t) if x[0] == 'param'}


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if k == 'param':
        return 'arg%d' % t[1] if t[1] else 'self'
    if k == 'call':
        return '%s(%s)' % (t[1], ', '.join(show(x) for x in t[2]))
    if k == 'construct':
        return '%s{%s}' % (t[1][:30], ', '.join(show(x) for x in t[2]))
    if k == 'op':
        return '(%s)' % (' %s ' % t[1]).join(show(x) for x in t[2]) if len(t[2]) > 1 else '%s%s' % (t[1], show(t[2][0]))
    if k == 'lit':
        return repr(t[1])
    if k == 'str':
        return repr(t[1])[:60]
    if k == 'get':
        return '%s[%d]' % (show(t[2]), t[1])
    if k == 'lambda':
        return 'lambda'
    return '%s(%s)' % (k, ', '.join(show(x) for x in t[1:]))
