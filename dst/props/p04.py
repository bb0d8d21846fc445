"""P04: clean-as-you-format never loses a snapshot."""
import os
import random

import numpy as np

from .. import core
from . import raws


class P04:
    def generate(self, rng, tier, i):
        cfg = raws.gen_raw(rng, weird=0.3, site=0.35)
        snaps = raws.snaps_of(cfg)
        ops = []
        for k in range(rng.randint(1, 4)):
            o = {'op': 'format', 'snaps': raws.pick(rng, snaps), 'clean': rng.random() < 0.85,
                 'overwrite': rng.random() < 0.45, 'remake': rng.random() < 0.15, 'basic': rng.random() < 0.4,
                 'ask': rng.random() < 0.5, 'restore': rng.random() < 0.6}
            if 'meta_snaps' in cfg and rng.random() < 0.4:
                o['meta'] = True
            if rng.random() < 0.8:
                o['want'] = {'kinds': raws.FAULTS, 'n': rng.choice([1, 1, 2])}
            ops.append(o)
        return {'config': cfg, 'ops': ops}

    def execute(self, run):
        w = run.w
        r = raws.Raw(run)
        rng = random.Random(core.stable_hash('p04', run.plan['wseed']))

        def listed():
            """The snapshots readers are told of."""
            lst = r.groups()[1].get('snapshots')
            return [] if lst is None else [int(x) for x in np.atleast_1d(lst)['index']]

        def available(i, groups):
            """None if the snapshot is available, else why not."""
            if r.complete(i):
                return None
            if i not in groups or i not in listed():
                return 'its raw files are incomplete and it is not in the catalogue'
            return r.problem(i, groups[i])

        def call(op, first):
            cat = r.catalog(op['snaps'])
            kw = {k: op[k] for k in ('remake', 'overwrite', 'basic')}
            ans = []
            if op['clean']:
                kw.update(realtime_clean_raw=True, realtime_clean_raw_check=op['ask'])
                ans = ['y'] if op['ask'] else []
            bad = []

            def on_remove(path):
                # the first raw file of a snapshot to go: its entry must be complete by then
                if not op['clean'] or not path.startswith(r.raw + os.sep):
                    return
                rel = os.path.relpath(path, r.raw)
                for i in op['snaps']:
                    if had[i] and (rel in r.ref[i]) and i not in seen:
                        seen.add(i)
                        groups, att = r.groups()
                        p = 'it is not in the catalogue (%s)' % att.get('error') if i not in groups else r.problem(i, groups[i])
                        if p:
                            bad.append('raw file %s is being deleted but snapshot %d: %s' % (rel, i, p))
            seen = set()
            had = {i: r.complete(i) for i in op['snaps']}
            w.on_remove = on_remove
            try:
                fn = lambda: cat.format(**kw)                            # noqa: E731
                out = run.call('format', fn, op, answers=ans) if first else w.op('format', fn, answers=ans)
            finally:
                w.on_remove = None
            run.check(not bad, 'deleted-too-early', lambda: bad[0])
            groups, att = r.groups()
            for i in had:
                if had[i]:
                    p = available(i, groups)
                    run.check(p is None, 'snapshot-lost', lambda: 'after format(%s) ended (%s, faults %s) snapshot %d is lost: %s' % (
                        kw, out.brief(), out.fired, i, p))
            return out, had

        for k, op in run.steps():
            if op['restore']:
                r.restore()
            groups, _ = r.groups()
            out, had = call(op, True)
            for f in out.fired:
                run.probe('fault at %s' % f['point'])
            case1 = not groups or op['remake']
            need = [i for i in op['snaps'] if case1 or i not in groups or op['overwrite']]
            if not out.ok and not out.fired:
                run.check(any(not had[i] for i in need) or not r.covered.issuperset(need), 'format-fails',
                          lambda: 'format failed without a fault: %s %r\n%s' % (out.brief(), out.exc, getattr(w, 'last_tb', '')))
            if out.fired and not out.ok:
                if out.status == 'killed' or rng.random() < 0.4:
                    r.s.start()
                groups, _ = r.groups()
                # repeat, adding to the catalogue; overwriting needs the raw data of what it overwrites
                again = dict(op, remake=False, overwrite=op['overwrite'] and all(r.complete(i) for i in op['snaps']))
                again.pop('faults', None)
                missing = [i for i in op['snaps'] if not r.complete(i) and i not in groups]
                if missing or not r.covered.issuperset(op['snaps']):
                    continue            # their raw data had been deleted by an earlier call already
                out2, _ = call(again, False)
                run.check(out2.ok, 'retry-fails', lambda: 'repeating the call: %s %r\n%s' % (out2.brief(), out2.exc, getattr(w, 'last_tb', '')))
                groups, _ = r.groups()
                for i in op['snaps']:
                    p = 'absent' if i not in groups else r.problem(i, groups[i])
                    run.check(p is None, 'not-completed', lambda: 'after repeating the call snapshot %d: %s' % (i, p))
                run.probe('repeated')
            groups, _ = r.groups()
            run.state([(i, r.complete(i), i in groups) for i in r.snaps], out.brief())


PROP = P04()
