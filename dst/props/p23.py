"""P23: cached tables of abundance-matched models are those of one complete run."""
import os

import numpy as np

from .. import core, synth
from . import hnd
from .common import same

KINDS = ('interrupt', 'eio', 'enospc', 'kill', 'memerr')
MODELS = {'stars': ('simim.galprops.sfr_bethermin17', 'bethermin17_base', 'sm_', ('halomassmin', 'haloprop')),
          'infrared': ('simim.galprops.sfr_ir', 'g13irlf_base', '', ('halomassmin', 'haloprop', 'lirmin'))}
# other simulations with nearly the same name
NEAR = {'TNG100-1': ['TNG100-2', 'TNG100-1-Dark', 'TNG300-1'], 'TNG300-2': ['TNG300-2-Dark', 'TNG300-1', 'TNG100-2'],
        'Illustris-3-Dark': ['Illustris-3', 'Illustris-2-Dark'], 'UniverseMachine-SMDPL': ['UniverseMachine-MDPL2', 'UniverseMachine-BolshoiPlanck'],
        '_testbox': ['UniverseMachine-SMDPL', 'TNG100-1'], 'UniverseMachine-uchuu': ['UniverseMachine-SMDPL']}


class P23:
    def generate(self, rng, tier, i):
        cfg = hnd.gen_catalog(rng, lc=0)
        spec = cfg['spec']
        while len(spec['zs']) < 2:
            spec.update(hnd.gen_catalog(rng, lc=0)['spec'])
        spec['counts'] = [rng.choice([0, 1, 7, 30, 80]) for _ in spec['zs']]
        if sum(spec['counts']) == 0:
            spec['counts'][-1] = 20
        cfg['vmax'] = rng.random() < 0.6
        cfg['model'] = rng.choice(['stars', 'infrared'])
        cfg['settings'] = [self.setting(rng, cfg) for _ in range(rng.choice([1, 2, 2, 3]))]
        cfg['near'] = rng.choice(NEAR[spec['sim']]) if rng.random() < 0.4 else None
        cfg['nearfirst'] = rng.random() < 0.5
        ops = []
        for k in range(rng.randint(2, 6)):
            o = {'op': rng.choice(['make', 'make', 'make', 'remake', 'remake', 'remake', 'load', 'session', 'other'] + ['near', 'near'] * bool(cfg['near'])), 'set': rng.randrange(len(cfg['settings']))}
            if o['op'] in ('make', 'remake', 'load') and rng.random() < 0.75:
                o['want'] = {'kinds': KINDS, 'points': ('file.', 'os.') if rng.random() < 0.85 else None, 'n': rng.choice([1, 1, 1, 2])}
            ops.append(o)
        return {'config': cfg, 'ops': ops}

    def setting(self, rng, cfg):
        s = {'haloprop': rng.choice(['mass', 'auto'] + ['vmax'] * cfg['vmax']), 'halomassmin': rng.choice([1e8, 1e10, 3e11])}
        if cfg['model'] == 'infrared':
            s['lirmin'] = rng.choice([10**8.5, 1e9])
        return s

    def execute(self, run):
        w, cfg = run.w, run.cfg
        g = hnd.Ground(run, cones=0)
        spec = cfg['spec']
        if cfg['vmax']:
            with core.seams_off(w):
                import h5py
                r = np.random.RandomState(cfg['dseed'] % (2**32))
                with h5py.File(g.simfile, 'a') as f:
                    for j in synth.indices(spec):
                        d = f['Snapshot %d' % j].create_dataset('vmax', data=(r.rand(len(g.props[j]['mass'][0])) * 900 + 50).astype('f4'))
                        d.attrs['units'], d.attrs['h dependence'] = 'km/s', 0
        mod, cls, pre, names = MODELS[cfg['model']]
        other = MODELS['stars' if cfg['model'] == 'infrared' else 'infrared']

        if cfg['near']:
            with core.seams_off(w):
                spec2 = dict(spec, sim=cfg['near'], seed=spec['seed'] + 1, counts=[c + 40 for c in spec['counts']])
                where2 = os.path.join(w.base, 'sims', 'near')
                os.makedirs(where2)
                synth.write_formatted(spec2, where2, {i: hnd.snap_props(spec2, i, cfg['dseed'] + 1) for i in synth.indices(spec2)})
                synth.write_meta(spec2, where2)
                synth.register(w, g.s.root, 'sims', cfg['near'], where2)
            run.expect_ok(g.s.start(), 'session-start', 'a new session')

        def construct(s, comp, remake, sim=spec['sim']):
            kw = {pre + k: s[k] for k in names if k in s}
            return getattr(w.mod(mod), cls)(sim, **{pre + 'comp': comp, pre + 'remake': remake}, **kw)
        zs = np.array(sorted(spec['zs']))
        zz = np.concatenate((zs, (zs[1:] + zs[:-1]) / 2))
        x = np.array([0., 60., 333., 900., 3e8, 1e9, 3e11, 2e12, 1e14])
        xx, zz = (a.ravel() for a in np.meshgrid(x, zz))

        def values(m):
            """What a model object evaluates to, or None if it has no tables."""
            if cfg['model'] == 'stars':
                has, f = m.init_stellarmass_function, m.stellarmass
            else:
                has, f = m.init_lir_function, m.lir
            out = w.op('evaluate', lambda: np.asarray(f(xx, zz)))
            if not out.ok:
                run.check(not has and isinstance(out.exc, ValueError), 'evaluate-fails', lambda: 'the model cannot be evaluated: %r\n%s' % (out.exc, getattr(w, 'last_tb', '')))
                return None
            return out.value
        # undisturbed runs
        ref = []
        where = None
        near = {'haloprop': 'mass', 'halomassmin': 1e8, 'lirmin': 1e9} if cfg['model'] == 'infrared' else {'haloprop': 'mass', 'halomassmin': 1e8}
        nearref = None

        def nearby(remake=False):
            m = run.expect_ok(w.op('near', lambda: construct(near, True, remake, cfg['near'])), 'make-fails', 'matching for %s' % cfg['near'])
            return values(m)
        if cfg['near']:
            nearref = nearby(True)
        for s in cfg['settings']:
            m = run.expect_ok(w.op('reference', lambda: construct(s, True, True)), 'make-fails', 'matching with %r' % (s,))
            v = values(m)
            run.check(v is not None, 'make-fails', 'the tables have been made but are not used')
            ref.append(v)
            where = m.path
        if cfg['near'] and not cfg['nearfirst']:
            nearby(True)
        with core.seams_off(w):
            for f in sorted(os.listdir(where)):
                core._rm(os.path.join(where, f))
        run.expect_ok(g.s.start(), 'session-start', 'a new session')
        allowed = [None]                # the values the tables may give

        def which(v, why):
            hit = [a for a in allowed if (a is None) == (v is None) and (v is None or same(a, v))]
            run.check(hit, 'wrong-values', lambda: '%s: the model gives %s, which is no complete run with %s' % (
                why, 'nothing' if v is None else v[:6], 'any of the settings asked for' if len(allowed) > 1 else 'the settings of the tables'))
            allowed[:] = hit[:1]

        def look(why):
            run.expect_ok(g.s.start(), 'session-start', 'a fault-free session (%s)' % why)
            m = run.expect_ok(w.op('load', lambda: construct(cfg['settings'][0], False, False)), 'load-fails', 'using the model %s' % why)
            which(values(m), why)

        for i, op in run.steps():
            s, new = cfg['settings'][op['set']], ref[op['set']]
            out = None
            if op['op'] == 'session':
                run.points[i] = []
                look('in a new session')
            elif op['op'] == 'near' and cfg['near']:
                # as do other simulations
                run.points[i] = []
                v = nearby(op['set'] == 1)
                run.check(same(v, nearref), 'wrong-values', lambda: 'the model of %s gives %s with %s around, %s alone' % (cfg['near'], v[:6], spec['sim'], nearref[:6]))
                which(values(run.expect_ok(w.op('load', lambda: construct(s, False, False)), 'load-fails', 'using the model')), 'after the model of %s was used' % cfg['near'])
                run.probe('simulations with near names')
            elif op['op'] in ('other', 'near'):
                # the other model keeps its own tables
                run.points[i] = []
                run.expect_ok(w.op('other', lambda: getattr(w.mod(other[0]), other[1])(spec['sim'], **{other[2] + 'comp': True})), 'make-fails', 'making the other model')
                which(values(run.expect_ok(w.op('load', lambda: construct(s, False, False)), 'load-fails', 'using the model')), 'after the other model was made')
            else:
                comp, remake = op['op'] != 'load', op['op'] == 'remake'
                out = run.call(op['op'], lambda: construct(s, comp, remake), op)
                if out.ok:
                    if remake or comp and allowed[0] is None:
                        allowed[:] = [new]
                    which(values(out.value), op['op'])
                else:
                    run.check(bool(out.fired), 'make-fails', lambda: '%s fails without a fault: %r\n%s' % (op['op'], out.exc, getattr(w, 'last_tb', '')))
                    if remake or comp and allowed[0] is None:
                        allowed += [new] + [None] * (allowed[0] is not None)
                    look('after %s stopped: %s' % (op['op'], '; '.join('%s at %s' % (f['kind'], f['point']) for f in out.fired)))
                    m = run.expect_ok(w.op('again', lambda: construct(s, comp, remake)), 'make-fails', '%s once more' % op['op'])
                    if remake or comp and allowed[0] is None:
                        allowed[:] = [new]
                    which(values(m), '%s once more' % op['op'])
                for f in out.fired:
                    run.probe('%s at %s' % (f['kind'], f['point']))
            with core.seams_off(w):
                run.state(op['op'], None if out is None else out.status, sorted(os.listdir(where)) if os.path.isdir(where) else None,
                          [k for k in range(len(ref)) if allowed[0] is not None and same(ref[k], allowed[0])])
        look('at the end')


PROP = P23()
