"""Plant a bug: plant.py SPEC.py [ID...] writes seeded/<id>/ from a specification and confirms it.

A specification defines BUGS = [dict(id, property, needs, what, edits=[(file, old, new)], demo)].  Each is applied to /repo, its
demonstration run with and without, the repository's stable tests run with it, the property's check run with it, and undone.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def original(files):
    """Whether every line taken away was in the original repository (only unchanged lines added otherwise)."""
    bad = []
    base = sh('git -C %s rev-list --max-parents=0 HEAD' % REPO).stdout.strip()[:7]
    d = sh('git -C %s diff -U0' % REPO).stdout
    f, n = None, 0
    for line in d.split('\n'):
        if line.startswith('--- a/'):
            f = line[6:]
            blame = [x.split()[0].lstrip('^')[:7] for x in sh('git -C %s blame -s HEAD -- %s' % (REPO, f)).stdout.split('\n') if x]
        m = re.match(r'@@ -(\d+)(?:,(\d+))?', line)
        if m:
            n = int(m.group(1))
        elif line.startswith('-') and not line.startswith('---'):
            if blame[n - 1] != base:
                bad.append((f, n, line))
            n += 1
    return bad


def main():
    spec = runpy.run_path(sys.argv[1])['BUGS']
    quick = '--no-check' in sys.argv
    ids = [a for a in sys.argv[2:] if not a.startswith('-')]
    assert not sh('git -C %s status --porcelain' % REPO).stdout, '/repo is not clean'
    for b in spec:
        if ids and b['id'] not in ids:
            continue
        d = os.path.join(V, 'seeded', b['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, 'demo.py'), 'w') as f:
            f.write('from kit import *\n' + b['demo'].strip('\n') + '\n')
        shutil.copy(os.path.join(V, 'tools', 'kit.py'), d)
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore -B "$(realpath "$(dirname "$0")")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        msg = []
        r = sh('timeout 290 bash %s/demo.sh' % d, cwd=REPO)
        if r.returncode:
            msg.append('demo fails on the unchanged tree: %s' % (r.stdout + r.stderr)[-800:])
        try:
            for fn, old, new in b['edits']:
                p = os.path.join(REPO, 'simim', fn)
                s = open(p).read()
                if s.count(old) != b.get('count', 1):
                    msg.append('%d places in %s for %r' % (s.count(old), fn, old))
                open(p, 'w').write(s.replace(old, new))
            open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C %s diff' % REPO).stdout)
            bad = original([e[0] for e in b['edits']])
            if bad:
                msg.append('not original lines: %s' % bad)
            r = sh('timeout 290 bash %s/demo.sh' % d, cwd=REPO)
            if not r.returncode:
                msg.append('demo passes with the bug')
            print(b['id'], '| demo:', (r.stdout + r.stderr).strip()[-200:])
            if not msg:
                r = sh('bash %s/tools/runtests.sh' % V)
                if r.returncode:
                    msg.append('tests: ' + r.stdout.strip())
            if not msg and not quick:
                r = sh('VERIF_SHRINK_S=0 %s %s/check.py %s --no-evidence' % (PY, V, b['property']))
                print(b['id'], '| caught' if 'VIOLATION' in r.stdout else '| MISSED (%d)' % r.returncode, '|', ' '.join(r.stdout.split('\n')[1:])[:300])
        finally:
            sh('git -C %s checkout -q -- .' % REPO)
        for m in msg:
            print(b['id'], '| NOT KEPT:', m)
        if msg:
            shutil.rmtree(d)
        sys.stdout.flush()
    sh('rm -f %s/replays/*' % V)


main()
