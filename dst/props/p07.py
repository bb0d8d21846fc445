"""P07: formatting gives the same faithful catalogue however it is split into runs."""
import os
import random

import numpy as np

from .. import core, synth
from . import fmt, raws


class P07:
    def generate(self, rng, tier, i):
        if rng.random() < 0.35:
            cfg = raws.gen_raw(rng, weird=0.2, site=1.0)
            ops = []
            for k in range(rng.randint(1, 4)):
                o = fmt.gen_format(rng, {'zs': [1], 'first': 0})
                o['snaps'] = raws.pick(rng, cfg['site']['snaps'])
                ops.append({'op': 'restart'} if rng.random() < 0.2 else o)
                if 'meta_snaps' in cfg and rng.random() < 0.4:
                    ops.append({'op': 'meta'})
            return {'config': cfg, 'ops': ops}
        spec = synth.gen_spec(rng)
        ops = []
        for k in range(rng.randint(1, 6)):
            ops.append({'op': 'restart'} if rng.random() < 0.3 else fmt.gen_format(rng, spec))
        return {'config': {'spec': spec}, 'ops': ops}

    def published(self, run):
        """The catalogues of the supported simulations."""
        w, r = run.w, raws.Raw(run)
        have, before = {}, {}
        for i, op in run.steps():
            if op['op'] == 'restart':
                r.s.start()
            elif op['op'] == 'meta':
                r.cover()
            else:
                cat = r.catalog(op['snaps'])
                new = not have or op['remake']
                basic = op['basic'] if new else all(have.values())
                todo = [j for j in op['snaps'] if new or j not in have or op['overwrite']]
                kw = {k: op[k] for k in ('remake', 'overwrite', 'basic')}
                old = None
                if not r.covered.issuperset(todo):
                    with core.seams_off(w):
                        old = core.file_digest(r.file) if have else None
                out = run.call('format', lambda: cat.format(**kw), op)
                if not r.covered.issuperset(todo):
                    # nothing is known of the redshift of some of them
                    run.check(not out.ok, 'wrong-snapshots', lambda: 'snapshots %s were formatted, the metadata covers %s' % (todo, sorted(r.covered)))
                    with core.seams_off(w):
                        run.check((core.file_digest(r.file) if os.path.exists(r.file) else None) == old, 'other-snapshot-changed', 'a refused run changed the catalogue')
                    run.probe('without metadata')
                    continue
                run.expect_ok(out, 'format-failed', 'format(%s) of %s' % (kw, op['snaps']))
                have = {**({} if new else have), **{j: basic for j in todo}}
            groups, att = r.groups()
            run.check(set(groups) == set(have), 'wrong-snapshots', lambda: 'the catalogue holds %s, expected %s' % (sorted(groups), sorted(have)))
            for j in have:
                p = r.problem(j, groups[j], have[j])
                run.check(p is None, 'wrong-snapshot', lambda: '%s snapshot %d: %s' % (r.sim, j, p))
                run.check(float(np.atleast_1d(groups[j]['meta'])['redshift'][0]) == np.float32(r.site.z[j]), 'wrong-metadata',
                          lambda: 'redshift of snapshot %d is %r, published %r' % (j, groups[j]['meta'], r.site.z[j]))
            if have:
                run.check(sorted(int(x) for x in att['snapshots']['index']) == sorted(have), 'wrong-metadata', lambda: 'listed snapshots %s' % att['snapshots']['index'])
            run.state(r.site.kind, sorted(have.items()))
            run.probe('published format: ' + r.site.kind)

    def execute(self, run):
        if 'site' in run.cfg:
            return self.published(run)
        s, m = fmt.prepare(run)
        rng = random.Random(core.stable_hash('p07', run.plan['wseed']))
        for i, op in run.steps():
            if op['op'] == 'restart':
                s.start()
                m.cat = None
                m.check_readers(rng)
                continue
            out = m.format(op)
            m.check_readers(rng)
        s.start()
        m.check_readers(rng)


PROP = P07()
