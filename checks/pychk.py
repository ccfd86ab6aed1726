"""Rules for the Python modules of the package, on their syntax trees."""
import ast
import os


def subst(node, env):
    class T(ast.NodeTransformer):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Load) and n.id in env:
                return ast.copy_location(env[n.id], n)
            return n
    import copy
    return T().visit(copy.deepcopy(node))


def returns(fn):
    """the returned expressions with local variables replaced by what was assigned to them"""
    env, out = {}, []

    def walk(body):
        for s in body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                env[s.targets[0].id] = subst(s.value, env)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                env[s.target.id] = subst(s.value, env)
            elif isinstance(s, ast.Return) and s.value is not None:
                out.append(subst(s.value, env))
            else:
                for b in ('body', 'orelse', 'finalbody'):
                    walk(getattr(s, b, []) or [])
    walk(fn.body)
    return out, env


def functions(tree):
    return {n.name: n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)}


def calls(e, name):
    return [n for n in ast.walk(e) if isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr == name or isinstance(n.func, ast.Name) and n.func.id == name)]


def has_tag(e, obj_ok):
    """an f-string lsst.sphgeom.{<name of the class>}"""
    for n in ast.walk(e):
        if isinstance(n, ast.JoinedStr) and len(n.values) == 2 and isinstance(n.values[0], ast.Constant) and isinstance(n.values[1], ast.FormattedValue):
            v = n.values[1].value
            if n.values[0].value == 'lsst.sphgeom.' and isinstance(v, ast.Attribute) and v.attr == '__name__':
                return True
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add) and isinstance(n.left, ast.Constant) and n.left.value == 'lsst.sphgeom.' and isinstance(n.right, ast.Attribute) and n.right.attr == '__name__':
            return True
    return False


def keys(e):
    return [k.value for n in ast.walk(e) if isinstance(n, ast.Dict) for k in n.keys if isinstance(k, ast.Constant)]


def subscripts(e):
    return [n.slice.value for n in ast.walk(e) if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant)]


def yaml_module(chk, f, tree):
    def w(n):
        return 'python/lsst/sphgeom/_yaml.py:%d' % n.lineno
    fns = functions(tree)
    role = {}        # class -> (representers, constructors)
    for loop in [n for n in ast.walk(tree) if isinstance(n, ast.For)]:
        if not isinstance(loop.iter, (ast.Tuple, ast.List)) or not isinstance(loop.target, ast.Name):
            continue
        cls = [e.id for e in loop.iter.elts if isinstance(e, ast.Name)]
        var = loop.target.id
        rep = [c.args[1].id for c in calls(loop, 'add_representer') if isinstance(c.args[0], ast.Name) and c.args[0].id == var and isinstance(c.args[1], ast.Name)]
        con = [(c.args[1].id, c) for c in calls(loop, 'add_constructor') if isinstance(c.args[1], ast.Name)]
        for c in cls:
            r = role.setdefault(c, [set(), set()])
            r[0] |= set(rep)
            r[1] |= {x[0] for x in con}
        for nm, c in con:
            chk.expect(has_tag(c.args[0], None), 'yaml', 'yaml/tag/' + nm, w(c), 'the tag registered for %s is not lsst.sphgeom. and the name of the class' % nm)
    if not role:
        chk.info.setdefault('unresolved', []).append(f)
        return
    for c in ('ConvexPolygon', 'Ellipse', 'Circle', 'Box', 'UnionRegion', 'IntersectionRegion', 'HtmPixelization', 'Q3cPixelization', 'Mq3cPixelization', 'HealpixPixelization'):
        chk.expect(c in role and len(role[c][0]) == 1 and len(role[c][1]) == 1, 'yaml', 'yaml/registered/' + c, 'python/lsst/sphgeom/_yaml.py', '%s has no YAML representer and constructor' % c)
    for c, (reps, cons) in role.items():
        for rn, cn in [(a, b) for a in reps for b in cons]:
            if rn not in fns or cn not in fns:
                continue
            r, _ = returns(fns[rn])
            k, env = returns(fns[cn])
            for e in r:
                m = calls(e, 'represent_mapping')
                chk.expect(len(m) == 1 and has_tag(m[0].args[0], None), 'yaml', 'yaml/represent/' + c, w(fns[rn]), '%s does not name the class in its tag' % rn)
                kr = keys(e)
                kc = [s for x in k for s in subscripts(x)]
                kc = [s for s in kc if not s.startswith('lsst.')]
                chk.expect(kr == kc, 'yaml', 'yaml/keys/' + c, w(fns[cn]), '%s writes the keys %s and %s reads %s' % (rn, kr, cn, kc))
                if 'Pixelization' in c:
                    chk.expect(len(calls(e, 'getLevel')) == 1 or any(isinstance(n, ast.Attribute) and n.attr in ('level', '_level') for n in ast.walk(e)), 'yaml', 'yaml/state/' + c, w(fns[rn]), '%s does not write the level' % rn)
                else:
                    chk.expect(len(calls(e, 'encode')) == 1 and len(calls(e, 'hex')) == 1, 'yaml', 'yaml/state/' + c, w(fns[rn]), '%s does not write the encoded region' % rn)
            if 'Pixelization' not in c:
                for x in k:
                    chk.expect(len(calls(x, 'fromhex')) == 1 and len(calls(x, 'decode')) == 1 and 'Region' in ast.unparse(calls(x, 'decode')[0].func), 'yaml', 'yaml/decode/' + c, w(fns[cn]), '%s returns %s' % (cn, ast.unparse(x)[:200]))
            else:
                for d in [n for n in ast.walk(fns[cn]) if isinstance(n, ast.Dict)]:
                    mp = {kk.value: v.id for kk, v in zip(d.keys, d.values) if isinstance(kk, ast.Constant) and isinstance(v, ast.Name)}
                    if mp:
                        chk.expect(mp.get('lsst.sphgeom.' + c) == c, 'yaml', 'yaml/class/' + c, w(d), 'the tag of %s makes %s' % (c, mp.get('lsst.sphgeom.' + c)))


def healpix(chk, f, tree):
    def w(n):
        return 'python/lsst/sphgeom/_healpixPixelization.py:%d' % n.lineno
    cls = [n for n in tree.body if isinstance(n, ast.ClassDef) and n.name == 'HealpixPixelization']
    if not cls:
        chk.fail('module', 'exists/HealpixPixelization', 'python/lsst/sphgeom/_healpixPixelization.py', 'there is no class HealpixPixelization')
        return
    fns = {n.name: n for n in cls[0].body if isinstance(n, ast.FunctionDef)}
    for m in ('universe', 'pixel', 'index', 'toString', 'envelope', 'interior', 'getLevel'):
        chk.expect(m in fns, 'module', 'healpix/' + m, w(cls[0]), 'HealpixPixelization has no method ' + m)

    def level(e):
        return isinstance(e, ast.Attribute) and e.attr in ('_level', 'level') or isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'getLevel'
    if '__reduce__' in fns:
        for e in returns(fns['__reduce__'])[0]:
            ok = isinstance(e, ast.Tuple) and len(e.elts) == 2 and isinstance(e.elts[1], ast.Tuple) and len(e.elts[1].elts) == 1 and level(e.elts[1].elts[0])
            chk.expect(ok, 'pickle', 'pickle/HealpixPixelization', w(fns['__reduce__']), 'HealpixPixelization is pickled as ' + ast.unparse(e)[:200])
    if 'getLevel' in fns:
        for e in returns(fns['getLevel'])[0]:
            chk.expect(level(e), 'forward', 'forward/HealpixPixelization.getLevel', w(fns['getLevel']), 'getLevel returns ' + ast.unparse(e)[:200])


def check(chk, f):
    if not os.path.exists(f):
        chk.info.setdefault('unresolved', []).append(f)
        return
    tree = ast.parse(open(f).read())
    b = os.path.basename(f)
    chk.functions.add('python/lsst/sphgeom/' + b)
    if b == '_yaml.py':
        yaml_module(chk, f, tree)
    elif b == '_healpixPixelization.py':
        healpix(chk, f, tree)
    elif b == 'pixelization_abc.py':
        cls = [n for n in tree.body if isinstance(n, ast.ClassDef) and n.name == 'PixelizationABC']
        for m in ('universe', 'pixel', 'index', 'toString', 'envelope', 'interior'):
            chk.expect(bool(cls) and any(isinstance(n, ast.FunctionDef) and n.name == m for n in cls[0].body), 'module', 'abc/' + m, 'python/lsst/sphgeom/pixelization_abc.py', 'PixelizationABC has no method ' + m)
