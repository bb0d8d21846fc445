#!/usr/bin/env python3
"""Check one property by seeded simulation of the working tree in /repo.

  check.py P01 [--tier quick|thorough] [--seed N] [--runs N] [--workers N] [--first I]
  check.py --replay FILE [--trace]

Exit 0: the property held on everything explored.  Exit 1: a VIOLATION line was
printed.  Any other exit: the check itself failed.
"""
import argparse
import json
import os
import selectors
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable

# runs per tier: (quick, thorough)
from dst.budget import BUDGET, LEVEL_RULE, STUBS  # noqa: E402


def scratch_dir():
    for d in ('/dev/shm', '/tmp'):
        try:
            return tempfile.mkdtemp(prefix='simimdst-', dir=d)
        except OSError:
            pass
    raise SystemExit('no scratch directory')


def copy_package(dst):
    """The package as it is in the working tree, with a thinned-out model table (the full one
    takes seconds to grid; the code that grids it is the repository's own)."""
    src = os.path.join(REPO, 'simim')
    shutil.copytree(src, os.path.join(dst, 'simim'),
                    ignore=lambda d, n: [x for x in n if x == '__pycache__' or
                                         (x == 'rootpath.txt' and os.path.basename(d) == 'resources')])
    dat = os.path.join(dst, 'simim', 'resources', 'behroozi13_release.dat')
    if os.path.exists(dat):
        rows = [l.split() for l in open(dat) if l.strip() and not l.startswith('#')]
        zs = sorted({float(r[0]) for r in rows})
        ms = sorted({float(r[1]) for r in rows})
        kz = set(zs[::max(1, len(zs) // 12)] + zs[-1:])
        km = set(ms[::max(1, len(ms) // 16)] + ms[-1:])
        with open(dat, 'w') as f:
            for r in rows:
                if float(r[0]) in kz and float(r[1]) in km:
                    f.write(' '.join(r) + '\n')


class Worker:
    def __init__(self, scratch, k, master, job):
        self.dir = os.path.join(scratch, 'k%s' % k)
        pkg = os.path.join(self.dir, 'pkg')
        os.makedirs(self.dir)
        shutil.copytree(master, pkg)
        os.makedirs(os.path.join(self.dir, 'mpl'))
        job = dict(job, pkg=pkg, scratch=os.path.join(self.dir, 's'), verif=HERE)
        os.makedirs(job['scratch'])
        env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': self.dir, 'MPLBACKEND': 'Agg',
               'MPLCONFIGDIR': os.path.join(self.dir, 'mpl'), 'OMP_NUM_THREADS': '1',
               'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'LC_ALL': 'C.UTF-8',
               'PYTHONHASHSEED': os.environ.get('VERIF_HASHSEED', '0'), 'HDF5_USE_FILE_LOCKING': 'FALSE',
               'PYTHONDONTWRITEBYTECODE': '', 'XDG_CACHE_HOME': self.dir, 'XDG_CONFIG_HOME': self.dir,
               'TZ': 'UTC'}
        self.err = open(os.path.join(self.dir, 'err'), 'w+')
        self.p = subprocess.Popen([PY, '-W', 'ignore', '-m', 'dst.worker'], cwd=HERE, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  start_new_session=True)
        self.p.stdin.write(json.dumps(job).encode())
        self.p.stdin.close()
        self.buf = b''
        self.at = -1
        self.done = False

    def kill(self):
        if self.p.poll() is None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
        self.p.wait()

    def errtext(self):
        self.err.seek(0)
        return self.err.read()[-3000:]


def one(scratch, name, master, job, timeout):
    """Run one worker to the end and return its messages."""
    w = Worker(scratch, name, master, job)
    try:
        out, _ = w.p.communicate(timeout=timeout) if False else (None, None)
        msgs = []
        t0 = time.monotonic()
        sel = selectors.DefaultSelector()
        sel.register(w.p.stdout, selectors.EVENT_READ)
        buf = b''
        while time.monotonic() - t0 < timeout:
            if not sel.select(1.0):
                continue
            b = os.read(w.p.stdout.fileno(), 1 << 16)
            if not b:
                break
            buf += b
        for l in buf.decode().splitlines():
            try:
                msgs.append(json.loads(l))
            except ValueError:
                pass
        return msgs, w.errtext()
    finally:
        w.kill()
        shutil.rmtree(w.dir, ignore_errors=True)


def load_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))['findings'] if f.get('status') == 'known']


def match_finding(findings, pid, v):
    for f in findings:
        if f['property'] == pid and f['match']['cls'] == v['cls'] and f['match'].get('contains', '') in v['msg']:
            return f
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--first', type=int, default=0)
    ap.add_argument('--workers', type=int, default=int(os.environ.get('VERIF_WORKERS') or min(8, os.cpu_count() or 4)))
    ap.add_argument('--replay')
    ap.add_argument('--trace', action='store_true')
    ap.add_argument('--digests', help='write the digest of every run to this file')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--all', action='store_true', help='do not stop at the first violation; tally classes')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    scratch = scratch_dir()
    try:
        return replay(a, scratch) if a.replay else check(a, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(a, scratch):
    doc = json.load(open(a.replay))
    pid = doc['property']
    master = os.path.join(scratch, 'master')
    copy_package(master)
    msgs, err = one(scratch, 0, master, {'mode': 'replay', 'property': pid, 'plan': doc['plan'], 'trace': a.trace}, 700)
    r = next((m for m in msgs if m['t'] == 'replayed'), None)
    if r is None:
        print('replay failed:', [m for m in msgs if m['t'] == 'error'], err)
        return 2
    if a.trace:
        print('\n'.join(r['trace']))
    print('digest', r['digest'], 'recorded', doc.get('digest'))
    if r['violation'] is None:
        print('not reproduced: the property holds on this plan in the current tree')
        return 0
    print('%s: %s' % (r['violation']['cls'], r['violation']['msg']))
    print('VIOLATION property=%s replay=%s' % (pid, os.path.abspath(a.replay)))
    return 1


def check(a, scratch):
    pid = a.property
    t0 = time.monotonic()
    runs = a.runs or BUDGET[pid][0 if a.tier == 'quick' else 1]
    limit = 780 if a.tier == 'quick' else 6 * 3600
    print('seed=%d property=%s tier=%s runs=%d workers=%d' % (a.seed, pid, a.tier, runs, a.workers), flush=True)
    master = os.path.join(scratch, 'master')
    copy_package(master)
    findings = load_findings()
    W = max(1, min(a.workers, runs))
    workers = []
    sel = selectors.DefaultSelector()
    for k in range(W):
        idx = list(range(a.first + k, a.first + runs, W))
        w = Worker(scratch, k, master, {'mode': 'runs', 'property': pid, 'seed': a.seed, 'tier': a.tier,
                                        'indices': idx, 'samples_below': a.first + 3})
        workers.append(w)
        sel.register(w.p.stdout, selectors.EVENT_READ, w)
    results, errors, viol = {}, [], {}
    first_bad = None
    try:
        while any(not w.done for w in workers):
            if time.monotonic() - t0 > limit:
                errors.append('wall-clock limit of the check reached')
                break
            for key, _ in sel.select(1.0):
                w = key.data
                b = os.read(w.p.stdout.fileno(), 1 << 16)
                if not b:
                    sel.unregister(w.p.stdout)
                    if not w.done:
                        errors.append('worker ended early: ' + w.errtext())
                    w.done = True
                    continue
                w.buf += b
                while b'\n' in w.buf:
                    line, w.buf = w.buf.split(b'\n', 1)
                    m = json.loads(line)
                    if m['t'] == 'begin':
                        w.at = m['i']
                    elif m['t'] == 'run':
                        results[m['i']] = m
                        if m.get('violation'):
                            v = m['violation']
                            if match_finding(findings, pid, v) is None:
                                viol[m['i']] = m
                                if first_bad is None or m['i'] < first_bad:
                                    first_bad = m['i']
                    elif m['t'] == 'error':
                        errors.append('run %s: %s' % (m.get('i'), m['msg']))
                        w.done = True
                    elif m['t'] == 'done':
                        w.done = True
            if first_bad is not None and not a.all:
                for w in workers:
                    if not w.done and w.at > first_bad:
                        w.done = True
                        w.kill()
            if errors and first_bad is None and not a.all:
                break
    finally:
        for w in workers:
            w.kill()
            shutil.rmtree(w.dir, ignore_errors=True)
    wall = time.monotonic() - t0
    known = {}
    for m in results.values():
        v = m.get('violation')
        if v:
            f = match_finding(findings, pid, v)
            if f:
                known.setdefault(f['id'], (f, 0))
                known[f['id']] = (f, known[f['id']][1] + 1)
    for f, n in known.values():
        print('KNOWN-FINDING: property=%s %s (%d runs)' % (pid, f['what'], n))
    if a.digests:
        with open(a.digests, 'w') as f:
            for i in sorted(results):
                f.write('%d %s\n' % (i, results[i]['digest']))
    if not a.no_evidence:
        evidence(a, pid, results, viol, known, wall, W)
    if a.all:
        tally = {}
        for i, m in sorted(viol.items()):
            tally.setdefault(m['violation']['cls'], []).append(i)
        for c, l in sorted(tally.items()):
            print('%6d  %s  first run %d: %s' % (len(l), c, l[0], viol[l[0]]['violation']['msg'][:600]))
    n_ok = len(results)
    for m in sorted(viol.values(), key=lambda m: m['i'])[:3]:
        path = report(a, pid, scratch, master, m)
        if path:
            print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
            return 1
        errors.append('run %d violated the property but did not replay' % m['i'])
    if errors:
        print('ERROR in the check itself:\n' + '\n'.join(e[:2500] for e in errors[:2]))
        return 2
    if n_ok != runs:
        print('ERROR: only %d of %d runs completed' % (n_ok, runs))
        return 2
    print('%s held in %d runs (%.0f s)' % (pid, n_ok, wall))
    return 0


def report(a, pid, scratch, master, m):
    plan, v = m['plan'], m['violation']
    print('run %d: %s: %s' % (m['i'], v['cls'], v['msg'][:3000]), flush=True)
    rd = os.path.join(HERE, 'replays')
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, '%s-seed%d-run%d.json' % (pid, a.seed, m['i']))
    budget = int(os.environ.get('VERIF_SHRINK_S', '60'))
    cand = []
    if budget:
        msgs, _ = one(scratch, 'shrink', master, {'mode': 'shrink', 'property': pid, 'plan': plan, 'cls': v['cls'],
                                                  'budget': budget}, budget + 400)
        s = next((x for x in msgs if x['t'] == 'shrunk'), None)
        if s and s['violation']:
            cand.append((s['plan'], s['violation'], s['digest'], 'minimised after %d executions' % s['tried']))
    cand.append((plan, v, m['digest'], 'as found'))
    for p, vv, digest, note in cand:
        msgs, _ = one(scratch, 'replay', master, {'mode': 'replay', 'property': pid, 'plan': p, 'trace': True}, 400)
        r = next((x for x in msgs if x['t'] == 'replayed'), None)
        if r and r['violation'] and r['violation']['cls'] == vv['cls']:
            exact = r['digest'] == digest
            with open(path, 'w') as f:
                json.dump({'property': pid, 'seed': a.seed, 'run': m['i'], 'violation': r['violation'],
                           'digest': r['digest'], 'note': note, 'trace_matches_search': exact, 'plan': p,
                           'trace': r['trace'][-400:]}, f, indent=1)
            print('replay (%s): %d operations, faults %s' % (
                note, len(p['ops']), json.dumps([fl for o in p['ops'] for fl in o.get('faults', [])])))
            return path
    return None


def evidence(a, pid, results, viol, known, wall, W):
    def total(key):
        t = {}
        for m in results.values():
            for k, n in m[key].items():
                t[k] = t.get(k, 0) + n
        return dict(sorted(t.items()))
    states = set()
    for m in results.values():
        states.update(m['states'])
    nontriv = [m for m in results.values() if m['fired'] or m['states'] or m['probes']]
    distinct = len({m['digest'] for m in nontriv})
    level, rule = LEVEL_RULE[pid]
    n = len(results)
    samples = [{'run': m['i'], 'plan': m['plan'], 'digest': m['digest']} for m in results.values() if 'plan' in m][:3]
    doc = {'property': pid, 'tier': a.tier, 'seed': a.seed, 'level': level,
           'coverage': {'evaluations': n, 'distinct_nontrivial': distinct, 'rule': rule, 'samples': samples,
                        'runs_per_hour': round(n / max(wall, 1e-3) * 3600), 'seeds_per_hour': round(n / max(wall, 1e-3) * 3600),
                        'simulated_seconds': round(sum(m['sim_s'] for m in results.values()), 1),
                        'sessions': sum(m['sessions'] for m in results.values()),
                        'operations': sum(m['ops'] for m in results.values()),
                        'events': sum(m['points'] for m in results.values()),
                        'oracle_checks': sum(m['checks'] for m in results.values()),
                        'faults_fired': total('faults'), 'runs_with_fault': sum(1 for m in results.values() if m['fired']),
                        'event_points': total('pts'), 'probes': total('probes'),
                        'distinct_traces': len({m['digest'] for m in results.values()}),
                        'distinct_states': len(states), 'state_measure': 'hash of the property\'s abstract state after each operation',
                        'components': STUBS, 'known_findings_seen': sorted(known), 'workers': W},
           'assumptions': ['process death, not power loss: bytes handed to the operating system survive',
                           'process death is not injected while an HDF5 file is open for writing (HDF5 1.x files are not crash consistent); errors, interrupts and full disks are',
                           'a file being written when the process dies survives as some prefix of what was written'],
           'wall_s': round(wall, 2), 'violations': len(viol)}
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % pid)
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(d, '%s.json' % pid))


if __name__ == '__main__':
    sys.exit(main())
