"""P15: a light cone contains exactly the halos its geometry calls for."""
import random

import numpy as np

from .. import core
from . import lcs


class P15:
    def setup(self, env):
        lcs.fast_distances()

    def generate(self, rng, tier, i):
        spec, geo = lcs.gen_cone(rng)
        cfg = {'spec': spec, 'geo': geo, 'dseed': rng.getrandbits(31), 'mm': rng.choice([None, None, 'q', 'q', 'exact', 'none']),
               'mq': rng.random()}
        ops = [{'op': 'build', 'n': rng.choice([1, 1, 2, 3]), 'seed': rng.getrandbits(30), 'plant': rng.random() < 0.8,
                'pseed': rng.getrandbits(30)}]
        if rng.random() < 0.4:
            ops.append({'op': 'build', 'n': rng.choice([1, 2]), 'seed': rng.getrandbits(30), 'plant': rng.random() < 0.5,
                        'pseed': rng.getrandbits(30), 'other': rng.random() < 0.5})
        if i % 8 == 0:
            wide = lcs.too_wide(rng, spec, geo)
            if wide:
                ops.append({'op': 'wide', 'geo': wide, 'n': rng.choice([1, 2]), 'seed': rng.getrandbits(30)})
        return {'config': cfg, 'ops': ops}

    def execute(self, run):
        w, cfg = run.w, run.cfg
        g = lcs.LcGround(run, cfg)
        spec, geo = cfg['spec'], cfg['geo']

        def build(n, seed, name):
            m = np.concatenate([p['mass'][0] for p in g.props.values()])
            minmass = 0
            if len(m) and cfg['mm'] == 'q':
                minmass = float(np.sort(m)[int(cfg['mq'] * len(m))]) * 0.9999
            elif len(m) and cfg['mm'] == 'exact':
                minmass = float(np.sort(m)[int(cfg['mq'] * len(m))])
            elif cfg['mm'] == 'none':
                minmass = 1e17

            def go():
                mk = g.maker(name, geo, minmass=minmass)
                mk.build_lightcones(n, rng=np.random.Generator(np.random.PCG64(seed)))
                return mk
            out = w.op('build', go)
            run.expect_ok(out, 'fails', 'building light cones (%s, %d halos)' % (geo, len(m)))
            return minmass

        for k, op in run.steps():
            run.points[k] = []
            name = 'set%d' % (k if op.get('other') else 0)
            if op['op'] == 'wide':
                out = w.op('wide', lambda: g.maker('wide', op['geo']).build_lightcones(op['n'], rng=lcs.Counted(np.random.PCG64(op['seed']))))
                run.check(not out.ok, 'no-room', 'light cones were built that no line of sight leaves room for (%s)' % op['geo'])
                run.check(not isinstance(out.exc, lcs.Endless), 'endless', 'building light cones that do not fit goes on without end (%s)' % op['geo'])
                run.probe('cones that do not fit')
                run.state('wide', geo['mode'], spec['box'])
                continue
            if op['plant']:
                build(op['n'], op['seed'], name)
                attrs = [lcs.read_cone(w, g.file(name, j))[0] for j in range(op['n'])]
                made = lcs.plant(spec, g.props, geo, attrs, random.Random(op['pseed']))
                run.probe('planted halos', made)
                with core.seams_off(w):
                    g.write()
            minmass = build(op['n'], op['seed'], name)
            total = 0
            for j in range(op['n']):
                a, grp, ix = lcs.read_cone(w, g.file(name, j))
                run.check(bool(a['finished']), 'unfinished', 'a completed build left an unfinished light cone')
                p = lcs.cone_problem(spec, g.props, geo, minmass, a, grp, ix)
                run.check(p is None, 'content', lambda: 'light cone %d of %d, %s: %s' % (j, op['n'], geo, p))
                total += len(ix['sim_indices'])
                if op['plant']:
                    b = attrs[j]
                    run.check(all(np.array_equal(a[x], b[x]) for x in ('start position', 'box flips', 'line of sight vector')), 'seed',
                              'the same seed gave other pointings')
                lc = run.expect_ok(w.op('open', lambda: w.mod('simim.lightcone').LCHandler(spec['sim'], name, j, in_h_units=True)),
                                   'unreadable', 'opening the light cone')
                v = run.expect_ok(w.op('return', lambda: lc.return_property('redshift')), 'unreadable', 'reading redshifts')
                run.check(np.array_equal(np.asarray(v).ravel(), np.asarray(grp['Lightcone Full']['redshift'][0]).ravel()), 'content',
                          'the handler returns other redshifts')
            run.probe('light cones', op['n'])
            run.probe('entries', total)
            run.state(geo['mode'], len(spec['zs']), spec['box'], total, minmass > 0)


PROP = P15()
