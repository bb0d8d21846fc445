"""P16: spheres contain exactly the halos of their volume."""
import random

import numpy as np

from .. import core
from . import lcs


class P16:
    def setup(self, env):
        lcs.fast_distances()

    def generate(self, rng, tier, i):
        fits = rng.random() < 0.85
        spec, geo = lcs.gen_sphere(rng, fits)
        cfg = {'spec': spec, 'geo': geo, 'dseed': rng.getrandbits(31), 'mm': rng.choice([None, None, 'q', 'q', 'exact', 'none']),
               'mq': rng.random(), 'fits': fits}
        if i % 50 == 0:
            # between the limit in units of Mpc/h and the one without h (see known_findings.json)
            box = spec['box'] if geo['mode'] == 'eighth' else spec['box'] / 2
            cfg.update(fits='F-P16', geo=dict(geo, zmin=0, zmax=float(lcs.zof(box / spec['h'] * 0.97, spec['h']))))
            spec['zs'] = [cfg['geo']['zmax'] * 1.2]
            spec['counts'] = [300]
        ops = []
        for k in range(rng.choice([1, 1, 2])):
            ops.append({'op': 'build', 'n': rng.choice([1, 1, 2, 3]), 'seed': rng.getrandbits(30), 'plant': rng.random() < 0.8,
                        'pseed': rng.getrandbits(30), 'other': rng.random() < 0.5})
        return {'config': cfg, 'ops': ops}

    def execute(self, run):
        w, cfg = run.w, run.cfg
        g = lcs.LcGround(run, cfg)
        spec, geo = cfg['spec'], cfg['geo']
        m = np.concatenate([p['mass'][0] for p in g.props.values()])
        minmass = 0
        if len(m) and cfg['mm'] in ('q', 'exact'):
            minmass = float(np.sort(m)[int(cfg['mq'] * len(m))]) * (0.9999 if cfg['mm'] == 'q' else 1)
        elif cfg['mm'] == 'none':
            minmass = 1e17

        def build(n, seed, name):
            def go():
                mk = g.maker(name, geo, minmass=minmass)
                mk.build_lightcones(n, rng=np.random.Generator(np.random.PCG64(seed)))
                return mk
            return w.op('build', go)

        for k, op in run.steps():
            run.points[k] = []
            name = 'set%d' % (k if op.get('other') else 0)
            if cfg['fits'] is not True:
                out = build(op['n'], op['seed'], name)
                if cfg['fits'] == 'F-P16':
                    run.check(not out.ok, 'too-big-h', 'a %s of radius %.1f Mpc/h was built in a box of %.1f Mpc/h' % (
                        geo['mode'], float(lcs.dist(geo['zmax'], spec['h'])), spec['box']))
                else:
                    run.check(not out.ok, 'too-big', 'a %s that does not fit in the box was built' % geo['mode'])
                continue
            if op['plant']:
                run.expect_ok(build(op['n'], op['seed'], name), 'fails', 'building (%s)' % geo)
                attrs = [lcs.read_cone(w, g.file(name, j))[0] for j in range(op['n'])]
                run.probe('planted halos', lcs.plant_sphere(spec, g.props, geo, attrs, random.Random(op['pseed'])))
                with core.seams_off(w):
                    g.write()
            run.expect_ok(build(op['n'], op['seed'], name), 'fails', 'building (%s)' % geo)
            total = 0
            for j in range(op['n']):
                a, grp, ix = lcs.read_cone(w, g.file(name, j))
                run.check(bool(a['finished']), 'unfinished', 'a completed build left an unfinished sphere')
                p = lcs.sphere_problem(spec, g.props, geo, minmass, a, grp, ix)
                run.check(p is None, 'content', lambda: '%s %d of %d, %s: %s' % (geo['mode'], j, op['n'], geo, p))
                total += len(ix['sim_indices'])
                if op['plant']:
                    run.check(all(np.array_equal(a[x], attrs[j][x]) for x in ('start position', 'box flips')), 'seed',
                              'the same seed gave other origins')
            run.probe('spheres', op['n'])
            run.probe('entries', total)
            run.state(geo['mode'], len(spec['zs']), spec['box'], total, minmass > 0)


PROP = P16()
