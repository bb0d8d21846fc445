"""P09: first-use model tables are rebuilt or complete, never half-written."""
import os

import numpy as np

from .. import core
from .common import Sess, name, fsenc, same

KINDS = ('interrupt', 'eio', 'enospc', 'kill', 'memerr')


class P09:
    def generate(self, rng, tier, i):
        cfg = {'root': 'r/' + fsenc(name(rng, 0.5)), 'custom': rng.random() < 0.35, 'loc': 'tables/' + fsenc(name(rng, 0.5))}
        ops = []
        for k in range(rng.randint(1, 4)):
            o = {'op': rng.choice(['session', 'session', 'session', 'instance'])}
            if rng.random() < 0.9:
                o['want'] = {'kinds': KINDS, 'points': ('file.', 'os.') if rng.random() < 0.9 else None,
                             'n': rng.choice([1, 1, 1, 2])}
            ops.append(o)
        if rng.random() < 0.3:
            ops.append({'op': 'again'})
            ops.append({'op': 'session', 'want': {'kinds': KINDS, 'points': ('file.', 'os.')}})
        return {'config': cfg, 'ops': ops}

    def values(self, run, why, base=None):
        """What the built-in model evaluates to, in the current session."""
        w = run.w
        m = w.mod('simim.galprops.sfr_behroozi13')
        z = np.array([0.0, 0.3, 1.1, 2.7, 4.4, 7.9])
        mass = np.array([1e10, 3e11, 1e12, 2.5e12, 7e13, 1e15])

        def ev():
            zz, mm = np.meshgrid(z, mass)
            b = base or m
            return (np.asarray(b.sfr(zz.ravel(), mm.ravel(), scatter=False)),
                    np.asarray(b.stellarmass(zz.ravel(), mm.ravel(), scatter=False)))
        out = w.op('evaluate', ev)
        return run.expect_ok(out, 'evaluate-fails', 'evaluating the built-in model (%s)' % why)

    def execute(self, run):
        w, cfg = run.w, run.cfg
        s = Sess(run)
        s.start()
        ref = os.path.join(w.base, 'ref')
        os.makedirs(ref)
        s.setup(ref)
        s.start()
        want = self.values(run, 'undisturbed installation')
        run.check(all(v.dtype.kind == 'f' and np.all(np.isfinite(v)) for v in want), 'setup', 'the undisturbed model gives no numbers')
        root = os.path.join(w.base, cfg['root'])

        def fresh(root):
            os.makedirs(root, exist_ok=True)
            s.setup(root)
            if cfg['custom']:
                loc = os.path.join(w.base, cfg['loc'] + root[-3:].replace('/', '_'))
                os.makedirs(loc, exist_ok=True)
                out = w.op('record', lambda: w.mod('simim._paths')._SimIMPaths()._newproppath('behroozi13', loc, checkoverwrite=False))
                run.expect_ok(out, 'setup', 'recording the table location')
                return loc
            return os.path.join(root, 'simim_resources', 'galprops', 'behroozi13')
        where = fresh(root)

        def look(why):
            out = s.start(cls='session-start')
            run.expect_ok(out, 'session-start', 'a fault-free session (%s)' % why)
            got = self.values(run, why)
            for n, a, b in zip(('sfr', 'stellar mass'), got, want):
                run.check(same(a, b), 'wrong-values', lambda: '%s: the model gives other %s values than an undisturbed installation' % (why, n))

        for i, op in run.steps():
            if op['op'] == 'again':
                run.points[i] = []
                look('before moving on')
                where = fresh(os.path.join(w.base, 'second'))
                continue
            if op['op'] == 'session':
                out = run.call_session(op)
            else:
                # a model object made by hand in a running session
                def make():
                    return w.mod('simim.galprops.sfr_behroozi13').behroozi13_base()
                if 'simim.galprops.sfr_behroozi13' not in __import__('sys').modules:
                    look('before making a model')
                    for f in sorted(os.listdir(where)):
                        core._rm(os.path.join(where, f))
                out = run.call('model', make, op)
                if out.ok:
                    got = self.values(run, 'model made by hand', out.value)
                    run.check(all(same(a, b) for a, b in zip(got, want)), 'wrong-values', 'a model made by hand gives other values')
            if not out.ok:
                run.check(bool(out.fired), 'session-start', lambda: 'a session without faults fails: %r\n%s' % (out.exc, getattr(w, 'last_tb', '')))
            have = sorted(f for f in os.listdir(where)) if os.path.isdir(where) else None
            run.state(op['op'], have, out.brief(), [f['kind'] for f in out.fired])
            for f in out.fired:
                run.probe('%s at %s' % (f['kind'], f['point']))
            if i % 2 == 0 or i == len(run.plan['ops']) - 1:
                look('after %s: %s' % (op['op'], '; '.join('%s at %s' % (f['kind'], f['point']) for f in out.fired) or 'no fault'))
                if op['op'] == 'session' and i < len(run.plan['ops']) - 1 and run.plan['ops'][i + 1]['op'] != 'again':
                    # first use once more: tables gone
                    for f in sorted(os.listdir(where)):
                        core._rm(os.path.join(where, f))


PROP = P09()
