"""Common driver for the property checks: obligations, violations, evidence,
known findings, exit codes."""
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'checks'))
import build  # noqa: E402
import absint  # noqa: E402
import dom  # noqa: E402


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.obl = {}          # rule -> [obligations, discharged]
        self.viol = []         # (key, rule, where, detail)
        self.info = {}
        self.samples = []
        self.functions = set()
        self.partitions = 0
        self.notes = []
        self.assumptions = []
        self.minimum = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def ok(self, rule, n=1):
        o = self.obl.setdefault(rule, [0, 0])
        o[0] += n
        o[1] += n

    def fail(self, rule, key, where, detail):
        o = self.obl.setdefault(rule, [0, 0])
        o[0] += 1
        if any(v[0] == key for v in self.viol):
            return
        self.viol.append((key, rule, where, detail))

    def expect(self, cond, rule, key, where, detail):
        if cond:
            self.ok(rule)
        else:
            self.fail(rule, key, where, detail() if callable(detail) else detail)
        return cond

    def need(self, rule, n):
        """instance floor confirmed by hand: fewer means the analysis lost its
        subject, which is an error of the check"""
        self.minimum[rule] = n

    def merge(self, d):
        for k, (a, b) in d.get('obl', {}).items():
            o = self.obl.setdefault(k, [0, 0])
            o[0] += a
            o[1] += b
        for v in d.get('viol', ()):
            if not any(x[0] == v[0] for x in self.viol):
                self.viol.append(tuple(v))
        self.functions |= set(d.get('functions', ()))
        self.partitions += d.get('partitions', 0)
        if len(self.samples) < 12:
            self.samples += d.get('samples', [])[:4]

    def dump(self):
        return {'obl': self.obl, 'viol': self.viol, 'functions': list(self.functions), 'partitions': self.partitions,
                'samples': self.samples}

    def fresh(self):
        """an empty collector for a worker process"""
        c = Check(self.pid)
        return c


def parallel(chk, items, fn, nproc=8, chunk=None):
    """fn(check, item) in worker processes; results merged into chk."""
    items = list(items)
    if not items:
        return
    nproc = min(nproc, len(items))
    if nproc == 1:
        for it in items:
            fn(chk, it)
        return
    k = min(len(items), nproc * 40)
    chunks = [items[i::k] for i in range(k)]
    global _job
    _job = (chk.pid, fn, chunks)
    ctx = multiprocessing.get_context('fork')
    errs = []
    soft, hard = (600, 10 ** 6) if chk.thorough else (90, 850)
    with ctx.Pool(nproc) as pool:
        res = pool.imap_unordered(_work, range(k))
        while True:
            try:
                d = res.next(timeout=5)
                chk.merge(d)
                errs += d['errors']
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                pass
            el = time.time() - chk.t0
            if chk.viol and el > soft:
                chk.notes.append('stopped after %d s: violations had been found already' % el)
                chk.minimum_off = True
                pool.terminate()
                return
            if el > hard:
                pool.terminate()
                raise build.AnalysisError('not finished after %d s' % el)
    if errs:
        raise build.AnalysisError('%d items could not be analysed; first: %s' % (len(errs), errs[0]))


def _work(i):
    pid, fn, chunks = _job
    c = Check(pid)
    errs = []
    for it in chunks[i]:
        try:
            fn(c, it)
        except Exception:
            if len(errs) < 3:
                errs.append('%r: %s' % (it, traceback.format_exc()[-2500:]))
    d = c.dump()
    d['errors'] = errs
    return d


def load_findings():
    p = os.path.join(VERIF, 'known-findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def main(pid):
    if pid == 'setup':
        build.dumper()
        print('IR dumper ready')
        return 0
    try:
        return main1(pid)
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s: internal error' % pid)
        return 2


def main1(pid):
    chk = Check(pid)
    mod = importlib.import_module('c_' + pid)
    # The prose of the evidence belongs to the check module; every count below
    # is measured on this run.
    try:
        mod.run(chk)
    except (build.AnalysisError, absint.Unsupported, absint.Budget) as e:
        if not chk.viol:
            print('ANALYSIS-ERROR property=%s: %s' % (pid, e))
            traceback.print_exc()
            return 2
        chk.notes.append('analysis stopped early: %s' % e)
    for r, n in chk.minimum.items():
        if chk.obl.get(r, [0])[0] < n and not chk.viol:
            print('ANALYSIS-ERROR property=%s: rule %s matched %d instances, %d were confirmed by hand' % (
                pid, r, chk.obl.get(r, [0])[0], n))
            return 2
    if not chk.obl:
        print('ANALYSIS-ERROR property=%s: nothing was analysed' % pid)
        return 2
    known = [f for f in load_findings() if f.get('property') == pid and f.get('status') == 'finding']
    new = []
    seen = []
    for v in chk.viol:
        k = [f for f in known if v[0].startswith(f['key'])]
        if k:
            seen.append(k[0])
        else:
            new.append(v)
    for f in {f['key']: f for f in seen}.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    tot = sum(o[0] for o in chk.obl.values())
    dis = sum(o[1] for o in chk.obl.values())
    print('property %s: %d obligations over %d rules, %d discharged; %d abstract partitions; %d functions' % (
        pid, tot, len(chk.obl), dis, chk.partitions, len(chk.functions)))
    for r, o in sorted(chk.obl.items()):
        print('  rule %-40s obligations %6d discharged %6d' % (r, o[0], o[1]))
    ev = {
        'property': pid, 'tier': chk.tier, 'seed': chk.seed, 'level': getattr(mod, 'LEVEL', 'other'),
        'coverage': {
            'explanation': mod.EXPLANATION,
            'obligations': tot, 'discharged': dis,
            'rules': {r: {'obligations': o[0], 'discharged': o[1]} for r, o in sorted(chk.obl.items())},
            'abstract_partitions': chk.partitions,
            'functions_analysed': sorted(chk.functions)[:400],
            'functions_analysed_count': len(chk.functions),
            'samples': chk.samples[:12],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + chk.assumptions,
        'violations': len(new), 'wall_s': round(time.time() - chk.t0, 3),
    }
    if getattr(mod, 'LEVEL', 'other') == 'proof':
        ev['coverage']['checker_cmd'] = 'python3 /verif/check.py ' + pid
        ev['coverage']['trusted_base'] = getattr(mod, 'TRUSTED', [])
    ev['coverage'].update(chk.info)
    if chk.notes:
        ev['coverage']['notes'] = chk.notes[:40]
    ed = os.path.join(VERIF, 'evidence')
    os.makedirs(ed, exist_ok=True)
    json.dump(ev, open(os.path.join(ed, pid + '.json'), 'w'), indent=1, default=str)
    if new:
        rd = os.path.join(ed, 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + '.json')
        json.dump({'property': pid, 'command': 'python3 /verif/check.py ' + pid,
                   'violations': [{'key': k, 'rule': r, 'where': w, 'detail': d} for k, r, w, d in new]},
                  open(rp, 'w'), indent=1, default=str)
        for k, r, w, d in new[:15]:
            print('violated rule %s\n  at   %s\n  what %s' % (r, w, d))
        if len(new) > 15:
            print('... and %d more' % (len(new) - 15))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0
