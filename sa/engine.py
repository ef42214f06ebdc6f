"""Shared machinery of the checks: parallel sweeps, findings, evidence, exit codes."""
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
from .project import Project, AnalysisBroken
from . import drive

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
_G = {}


class Finding:
    """One violation.  key identifies rule and construct and never contains a line number."""
    def __init__(self, key, msg, file='', line=0, func=''):
        self.key, self.msg, self.file, self.line, self.func = key, msg, file, line, func

    def text(self):
        at = f'{self.file}:{self.line}' if self.file else ''
        return f'{at} {self.func}: {self.msg}'.strip()


class Result:
    def __init__(self):
        self.findings = {}
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.unanalysed = []

    def add(self, key, msg, file='', line=0, func=''):
        self.findings.setdefault(key, Finding(key, msg, file, line, func))

    def count(self, name, k=1):
        self.cov[name] = self.cov.get(name, 0) + k


class JobTimeout(Exception):
    pass


def _alarm(*_):
    if _G.get('running'):
        raise JobTimeout()


def _work(j):
    try:
        r = _job(j)
        _G['running'] = False
        return r
    except JobTimeout:
        # the alarm rang while the result was on its way
        return j, 'error', 'time limit'
    finally:
        _G['running'] = False
        signal.alarm(0)


def _job(j):
    fn, job = _G['fn'], _G['jobs'][j]
    signal.signal(signal.SIGALRM, _alarm)
    _G['running'] = True
    signal.alarm(int(os.environ.get('VERIF_JOB_S', '240')))
    try:
        return j, 'ok', fn(_G['proj'], job)
    except AnalysisBroken as e:
        return j, 'broken', str(e)
    except JobTimeout:
        return j, 'error', 'time limit'
    except Exception as e:
        return j, 'error', repr(e) + ' @ ' + ' <- '.join(
            f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(traceback.extract_tb(e.__traceback__)[-4:]))


def pmap(proj, fn, jobs):
    """[(job, 'ok'|'error', plain result)] computed by a pool of forked workers."""
    _G.update(fn=fn, jobs=jobs, proj=proj)
    out = []
    n = int(os.environ.get('VERIF_JOBS') or min(8, os.cpu_count() or 4))
    if len(jobs) < 3:
        res = [_work(j) for j in range(len(jobs))]
    else:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(n) as pool:
            res = list(pool.imap_unordered(_work, range(len(jobs)), chunksize=1))
    for j, st, r in sorted(res, key=lambda x: x[0]):
        if st == 'broken':
            raise AnalysisBroken(r)
        out.append((jobs[j], st, r))
    return out


def sweep(proj, fn, variants=drive.VARIANTS, only=None, res=None, **opts):
    """Run fn(proj, Run) on every declared configuration and variant."""
    cfgs = [c for c in drive.configs() if only is None or only(c)]
    jobs = [(c.i, v) for c in cfgs for v in variants]
    byi = {c.i: c for c in cfgs}

    def job(pr, j):
        c, v = byi[j[0]], j[1]
        r = drive.run(pr, c, v, **opts)
        if any(e.kind == 'budget' for e in r.events):
            return {'budget': True, 'data': fn(pr, r)}
        return {'budget': False, 'data': fn(pr, r)}
    got = []
    # long jobs first would need timings; the order of the table is good enough
    for (ci, v), st, r in pmap(proj, job, jobs):
        if st != 'ok':
            if res is not None:
                res.unanalysed.append(f'{byi[ci].id}/{v}: {r}')
            continue
        if r['budget'] and res is not None:
            res.unanalysed.append(f'{byi[ci].id}/{v}: analysis budget reached')
        got.append((byi[ci], v, r['data']))
    if res is not None:
        res.count('configurations_analysed', len(got))
        res.cov['configurations_declared'] = len(jobs)
        if len(got) < 0.8 * len(jobs):
            raise AnalysisBroken(f'only {len(got)} of {len(jobs)} configurations could be analysed: {res.unanalysed[:3]}')
    return got


# ------------------------------------------------------------------ known findings
def known(prop):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=' + prop + ' '):
                rest = l.split(' ', 2)[2]
                key, _, what = rest.partition(' :: ')
                out[key[len('key='):]] = what
    return out


def main(prop, check, level_note):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if '--quick' in sys.argv:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    res = Result()
    try:
        proj = Project(REPO)
        check(proj, res, tier)
    except AnalysisBroken as e:
        print(f'ANALYSIS-BROKEN property={prop} {e}')
        return 3
    kn = known(prop)
    bad = [f for k, f in sorted(res.findings.items()) if k not in kn]
    for k, f in sorted(res.findings.items()):
        if k in kn:
            print(f'KNOWN-FINDING: property={prop} {kn[k]} [{f.text()}]')
    stale = [k for k in kn if k not in res.findings]
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    rp = os.path.join(ev, f'{prop}.violations.txt')
    if bad:
        with open(rp, 'w') as f:
            for b in bad:
                f.write(b.text() + f'   [key={b.key}]\n')
    elif os.path.exists(rp):
        os.remove(rp)
    cov = dict(res.cov)
    cov['explanation'] = level_note
    cov['rule_instances'] = cov.get('rule_instances', 0)
    cov['source_digest'] = proj.digest
    cov['files_parsed'] = len([m for m in proj.modules.values() if m.path.startswith(REPO) or os.path.isabs(m.path)])
    cov['samples'] = res.samples[:8]
    cov['not_analysed'] = res.unanalysed[:20]
    cov['known_findings_seen'] = len(res.findings) - len(bad)
    cov['known_findings_absent'] = stale
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
               'assumptions': res.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(bad)},
              open(os.path.join(ev, f'{prop}.json'), 'w'), indent=1)
    print(f'{prop}: {cov.get("rule_instances")} rule instances, {len(res.findings)} findings '
          f'({len(res.findings) - len(bad)} known), {len(res.unanalysed)} not analysed, {time.time() - t0:.1f}s')
    for b in bad[:20]:
        print('  ' + b.text() + f' [key={b.key}]')
    if bad:
        print(f'VIOLATION property={prop} replay={rp}')
        return 1
    return 0
