"""C10: const operations write nothing that is shared."""
import re
from common import *
import effects

EXPLANATION = (
    'An interprocedural mod / points-to analysis of the whole library (every inline member included) computes which memory each function may write, as access paths from its parameters and as globals. '
    'A member function declared const must not write its object or anything reached through it, a parameter taken by reference or pointer to const must not be written, and no function may write a variable with static storage, '
    'except while initialising a function-local static under its guard, before main, or with atomic operations or thread-local variables; nor may it call a function of the C library that keeps state. '
    'A virtual call of a const function is taken at its contract, which is checked for every override.')
ASSUMPTIONS = ['parameters do not alias each other', 'virtual functions return objects that do not refer into their own; destructors write only what their object owns; functions outside the library write only their own object unless it is const; allocation, exceptions and libm have no effects of their own']


def harness():
    import os
    hs = [f[:-2] for f in sorted(os.listdir(build.REPO + '/include/lsst/sphgeom')) if f.endswith('.h') and not f.startswith('python')]
    std = 'algorithm array cassert cmath cstdint cstring exception functional initializer_list iosfwd iostream iterator limits map memory mutex optional ostream set sstream stdexcept string string_view tuple type_traits utility vector'
    return ''.join('#include <%s>\n' % h for h in std.split()) + \
        ''.join('#include "lsst/sphgeom/%s.h"\n' % h for h in hs)


def run(chk):
    for defs, tag in (((), 'simd'), (('NO_SIMD',), 'scalar')):
        prog = Program(build.build_ir(harness(), 'C10' + tag, defs=defs, keep_all=True, harness_flags=('-femit-all-decls', '-DNO_SIMD', '-Wno-macro-redefined')))
        analyse(chk, prog, tag)
    chk.need('const-this', 500)
    chk.need('const-parameter', 600)
    chk.need('no-shared-state', 1000)


def analyse(chk, prog, tag):
    E = effects.Effects(prog)
    lib = [n for n, f in prog.funcs.items() if not f.decl]
    init = set()
    for n, f in prog.funcs.items():
        if n.startswith('__cxx_global_var_init') or n.startswith('_GLOBAL__') or n.startswith('__cxx_global_array'):
            init.add(n)
    E.run(lib)
    for n in lib:
        f = prog.funcs[n]
        if not in_library(f):
            continue
        s = E.sum[n]
        where = '%s (%s)' % (f.dem, '%s:%s' % (f.file, f.line) if f.file else '?')
        chk.functions.add(f.dem)
        # shared state
        bad = [(o, w) for o, w in s.writes.items() if o[0] == 'G' and shared(prog, o[1])]
        if n not in init:
            below = set()
            for c in E.callees(n):
                if c in E.sum and c in prog.funcs and in_library(prog.funcs[c]):
                    below |= set(E.sum[c].writes)
            here = [x for x in bad if x[0] not in below]
            for o, w in here:
                g = prog.funcs[w[0]]
                chk.fail('no-shared-state', 'global:%s:%s' % (o[1], f.dem.split('(')[0]), where,
                         '%s writes the static variable %s: %s at %s' % (f.dem, varname(prog, o[1]), g.dem.split('(')[0], w[1]))
            if not here:
                chk.ok('no-shared-state')
        for c, loc in sorted(set(E.unsafe.get(n, ()))):
            chk.fail('no-shared-state', 'libc:%s:%s' % (c, f.dem.split('(')[0]), where, '%s calls %s at %s, which changes the state of the process' % (f.dem, c, loc))
        pm = const_params(f)
        for i, what in pm:
            rule = 'const-this' if what == 'this' else 'const-parameter'
            w = [(o, x) for o, x in s.writes.items() if o[0] == 'P' and o[1] == i]
            if w:
                o, x = w[0]
                g = prog.funcs.get(x[0])
                chk.fail(rule, '%s:%s' % (rule, f.dem.split('(')[0]), where, '%s may write through its const %s: %s at %s' % (
                    f.dem, 'object' if what == 'this' else 'parameter ' + what, g.dem.split('(')[0] if g else x[0], x[1]))
            else:
                chk.ok(rule)
    chk.partitions += len(lib)


def in_library(f):
    return 'lsst7sphgeom' in f.name and not re.match(r'_ZN?K?(St|S[absiod]|9__gnu_cxx)', f.name) and (f.file or '').startswith(build.REPO)


def shared(prog, g):
    """a variable of the library that is neither thread-local nor a guard"""
    x = prog.globals.get(g)
    if x is None or g.startswith(('_ZGV', '_ZTV', '_ZTI', '_ZTS', '.str', '__')):
        return False
    return not x[6]


def varname(prog, g):
    x = prog.globals[g]
    return '%s (%s:%d)' % (x[8][2], prog.files[x[8][0]], x[8][1]) if x[8] else g


def const_params(f):
    ps, const = effects.params(f.dem)
    if ps is None:
        return []
    if ps == ['void']:
        ps = []
    idx = list(range(f.nargs))
    out = []
    if f.aattr and f.aattr[0] == 1:
        idx = idx[1:]
    method = f.name.startswith('_ZNK')
    if method and idx:
        out.append((idx[0], 'this'))
        idx = idx[1:]
    else:
        # static or free functions have no object; members do: tell by the number of arguments
        if len(idx) == len(ps) + 1:
            idx = idx[1:]
    if len(idx) == len(ps):
        for i, p in zip(idx, ps):
            if f.args[i][0] == 'p' and f.aattr[i] == 0 and re.search(r' const( ?[&*])$', p) and not re.search(r'\* const&$', p):
                out.append((i, p))
    return out
