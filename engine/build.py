"""Front end: compile /repo's current sources (and an analysis harness that only
names public API) to LLVM bitcode, link, reduce to what the entry points reach,
and dump.  No machine code is produced."""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SPHGEOM_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
FLAGS = ['-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-DNDEBUG',
         '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-g1', '-w', '-fno-discard-value-names', '-I' + REPO + '/include',
         '-I' + REPO + '/src']


class AnalysisError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode:
        raise AnalysisError('command failed: %s\n%s' % (' '.join(cmd), (p.stderr or p.stdout)[-3000:]))
    return p.stdout


def llvm_bin(n):
    p = '/usr/lib/llvm-18/bin/' + n
    return p if os.path.exists(p) else n


def dumper():
    """build the IR dumper (once)"""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, 'irdump.cc')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'irdump-' + h)
    if os.path.exists(exe):
        return exe
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if not os.path.exists(exe):
            cfg = llvm_bin('llvm-config')
            cxx = sh([cfg, '--cxxflags']).split()
            cxx = [x for x in cxx if x != '-fno-exceptions']
            ld = sh([cfg, '--ldflags']).split()
            tmp = exe + '.tmp%d' % os.getpid()
            sh(['g++', '-O1', '-std=c++17'] + cxx + [src, '-o', tmp] + ld + ['-lLLVM-18'])
            os.rename(tmp, exe)
    finally:
        lock.close()
    return exe


def sources():
    """library translation units, from the build's own source list"""
    import re
    txt = open(REPO + '/src/CMakeLists.txt').read()
    m = re.search(r'target_sources\(sphgeom PRIVATE(.*?)\)', txt, re.S)
    if not m:
        raise AnalysisError('no target_sources in src/CMakeLists.txt')
    fs = [f for f in m.group(1).split() if f.endswith('.cc')]
    if len(fs) < 20:
        raise AnalysisError('only %d library sources listed' % len(fs))
    return [REPO + '/src/' + f for f in fs]


def tree_hash(extra=()):
    h = hashlib.sha256()
    for root in ('src', 'include'):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, root))):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    for e in extra:
        h.update(e if isinstance(e, bytes) else e.encode())
    return h


def build_ir(harness, name, defs=(), entry_prefix='h_', keep_all=False, extra_flags=(), passes=None, harness_flags=()):
    """harness: C++ source text. Returns path of the JSON program."""
    exe = dumper()
    flags = FLAGS + ['-D' + d for d in defs] + list(extra_flags)
    h = tree_hash([harness, ' '.join(flags), os.path.basename(exe), entry_prefix, str(keep_all), str(passes)] + list(harness_flags))
    out = os.path.join(BUILD, '%s-%s.json' % (name, h.hexdigest()[:20]))
    if os.path.exists(out) and not os.environ.get('SPHGEOM_NOCACHE'):
        return out
    tmp = tempfile.mkdtemp(prefix='ir-', dir=BUILD)
    try:
        jobs = []
        for s in sources():
            jobs.append((s, os.path.join(tmp, os.path.basename(s) + '.bc')))
        if harness:
            hp = os.path.join(tmp, name + '_harness.cc')
            open(hp, 'w').write(harness)
            jobs.append((hp, hp + '.bc'))

        def comp(j):
            own = list(harness_flags) if j[0].endswith('_harness.cc') else []
            if own:
                # keep every inline function: the linker drops unused ones unless they are weak
                sh([llvm_bin('clang++')] + flags + own + ['-emit-llvm', '-S', j[0], '-o', j[1]])
                txt = open(j[1]).read()
                open(j[1], 'w').write(re.sub(r'^(define )linkonce_odr ', r'\1weak_odr ', txt, flags=re.M))
                return
            sh([llvm_bin('clang++')] + flags + own + ['-emit-llvm', '-c', j[0], '-o', j[1]])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(comp, jobs))
        allbc = os.path.join(tmp, 'all.bc')
        sh([llvm_bin('llvm-link')] + [j[1] for j in jobs] + ['-o', allbc])
        p = passes or 'sroa,early-cse,simplifycfg,dce'
        if passes == 'inline':
            p = ('function(sroa,early-cse,simplifycfg),cgscc(inline),'
                 'function(sroa,early-cse,simplifycfg<no-sink-common-insts>,instsimplify,dce)')
        if not keep_all:
            syms = [l.split()[-1] for l in sh([llvm_bin('llvm-nm'), '--defined-only', allbc]).splitlines() if l.split()]
            api = [s for s in syms if s.startswith(entry_prefix)]
            if not api:
                raise AnalysisError('no analysis entry point in harness ' + name)
            p = 'internalize,globaldce,' + p + ',globaldce'
            args = ['-internalize-public-api-list=' + ','.join(api)]
        else:
            args = []
        obc = os.path.join(tmp, 'o.bc')
        sh([llvm_bin('opt'), '-passes=' + p] + args + [allbc, '-o', obc])
        sh([exe, obc, out + '.tmp%d' % os.getpid()])
        os.rename(out + '.tmp%d' % os.getpid(), out)
        import glob
        import time
        for f in glob.glob(os.path.join(BUILD, name + '-*.json')):
            if f != out and time.time() - os.path.getmtime(f) > 1800:
                os.unlink(f)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out
