"""Shared driver: program loading, parallel exploration, known findings, evidence, exit codes."""
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build          # noqa: E402
import engine         # noqa: E402
from interp import Interp, AnalysisError, Program    # noqa: E402
import ir             # noqa: E402

_G = {}
INCOMPLETE = []     # explorations that did not finish, but had found something


def _work(i):
    prog, mk, jobs = _G['prog'], _G['mk'], _G['jobs']
    job = jobs[i]
    if _G['stop'] and _G['count'].value >= _G['stop']:
        return dict(ok=True, reports=[], steps=0, funcs=[], calls=0, blocks=0, sites=[], blockset=[], extra='not needed')
    mon = mk(job)
    itp = Interp(prog, mon, budget=_G['budget'])
    try:
        root = job['root']
        itp.run_root(root, args=None, setup=job.get('setup'))
        extra = mon.finish(itp) if hasattr(mon, 'finish') else None
        if itp.reports:
            with _G['count'].get_lock():
                _G['count'].value += 1
        return dict(ok=True, reports=list(itp.reports.values()), steps=itp.steps, funcs=list(itp.funcs_seen),
                    calls=len(itp.calls_seen), blocks=len(itp.blocks_seen), sites=sorted(getattr(mon, 'sites', ())),
                    blockset=list(itp.blocks_seen), extra=extra)
    except AnalysisError as e:
        if itp.reports:
            with _G['count'].get_lock():
                _G['count'].value += 1
        return dict(ok=False, err='%s: %s' % (job.get('name', job['root']), e), reports=list(itp.reports.values()),
                    steps=itp.steps, funcs=list(itp.funcs_seen), sites=sorted(getattr(mon, 'sites', ())),
                    blockset=list(itp.blocks_seen), extra=None)


class Run:
    """what one exploration measured"""

    def __init__(self):
        self.reports = []
        self.steps = 0
        self.funcs = set()
        self.blocks = set()
        self.sites = set()
        self.roots = []
        self.extra = []

    def add(self, o):
        self.reports += o.reports
        self.steps += o.steps
        self.funcs |= o.funcs
        self.blocks |= o.blocks
        self.sites |= o.sites
        self.roots += o.roots
        self.extra += o.extra
        return self

    def cover(self):
        return dict(entry_points=len(self.roots), functions_analysed=len(self.funcs), basic_blocks=len(self.blocks),
                    abstract_steps=self.steps, rule_instances=len(self.sites),
                    samples=sorted(self.sites)[:400])


def explore(prog, mk, jobs, budget=4000000, par=True, stop=0):
    """run monitor mk(job) over every job {'root':name,'setup':fn}, until `stop` of them have reported something; returns Run"""
    engine.PROG = prog
    jobs = [dict(root=j) if isinstance(j, str) else j for j in jobs]
    for j in jobs:
        prog.need(j['root'])
    _G.update(prog=prog, mk=mk, jobs=jobs, budget=budget, stop=stop, count=mp.Value('i', 0))
    if par and len(jobs) > 1:
        with mp.get_context('fork').Pool(min(8, len(jobs))) as pool:
            res = pool.map(_work, range(len(jobs)), chunksize=1)
    else:
        res = [_work(i) for i in range(len(jobs))]
    r = Run()
    for j, x in zip(jobs, res):
        if not x['ok']:
            INCOMPLETE.append(x['err'])
        r.steps += x['steps']
        r.funcs |= set(x['funcs'])
        r.blocks |= set(map(tuple, x['blockset']))
        r.sites |= set(x['sites'])
        r.roots.append(j.get('name', j['root']))
        r.extra.append((j, x['extra']))
        for rep in x['reports']:
            if not any(o['rule'] == rep['rule'] and o['function'] == rep['function'] and o['line'] == rep['line'] and
                       o['message'] == rep['message'] for o in r.reports):
                r.reports.append(rep)
    if INCOMPLETE and not r.reports:
        raise AnalysisError(INCOMPLETE[0])
    return r


def roots(prog, exclude=()):
    """functions nothing in the program calls directly: threads, callbacks, API, main"""
    called = set()
    for f in prog.funcs.values():
        called |= prog.direct(f)[0] - {f.cname}
    return sorted(n for n in prog.funcs if n not in called and n not in exclude)


def relevant_roots(prog, mon, exclude=()):
    """entry points from which an event of the monitor can be reached"""
    out = []
    for r in roots(prog, exclude):
        if any(mon.relevant_fn(prog, g) for g in prog.reach(prog.funcs[r])[1]):
            out.append(r)
    return out


def report(rule, f, ins, msg, key=None, entry=None):
    return dict(rule=rule, file=f.file, line=ins.line if ins is not None else f.line, function=f.name,
                entry=entry or f.name, calls=[], message=msg, branches=[])


def selftest_program(src, name):
    """compile a tiny C fixture of /verif/selftest to a Program"""
    import subprocess
    import tempfile
    import shutil
    d = tempfile.mkdtemp(prefix='sa-st-')
    try:
        p = os.path.join(VERIF, 'selftest', src)
        o = build.compile_one((p, os.path.join(d, 'x.ll'), [], [os.path.join(build.REPO, i) for i in build.INC]))
        return Program([ir.parse_module(o, name)])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def load_findings():
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                out.append(json.loads(l))
    return out


def main(pid, check, level_note=''):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t = time.time()
    try:
        reports, coverage, assumptions = check(tier)
    except AnalysisError as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    except RecursionError as e:
        print('ANALYSIS-BROKEN property=%s recursion: %s' % (pid, e))
        return 2
    known = [k for k in load_findings() if k.get('property') == pid]
    new, old = [], []
    for r in reports:
        k = None
        for c in known:
            if c['rule'] == r['rule'] and c['function'] == r['function'] and c.get('match', '') in r['message']:
                k = c
                break
        (old if k else new).append((r, k))
    if INCOMPLETE and not new:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, INCOMPLETE[0]))
        return 2
    seenk = []
    for r, k in old:
        if k not in seenk:
            seenk.append(k)
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    base = os.environ.get('SA_OUT', VERIF)
    os.makedirs(os.path.join(base, 'evidence'), exist_ok=True)
    coverage.setdefault('known_findings_seen', len(seenk))
    ev = dict(property=pid, tier=tier, seed=seed, level='other', coverage=coverage, wall_s=round(time.time() - t, 2),
              violations=len(new), assumptions=assumptions)
    with open(os.path.join(base, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print('%s: %s' % (pid, ', '.join('%s=%s' % (k, v) for k, v in sorted(coverage.items()) if isinstance(v, (int, float)))))
    if new:
        od = os.path.join(base, 'out')
        os.makedirs(od, exist_ok=True)
        p = os.path.join(od, pid + '.json')
        with open(p, 'w') as f:
            json.dump([r for r, _ in new], f, indent=1)
        for r, _ in new[:20]:
            print('%s:%s: [%s] in %s: %s (entry %s%s)' % (
                r['file'], r['line'], r['rule'], r['function'], r['message'], r['entry'],
                ', via ' + ' > '.join(r['calls']) if r['calls'] else ''))
            if r['branches']:
                print('    path: %s' % ' '.join(r['branches'][-14:]))
        print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    return 0
