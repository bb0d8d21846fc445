"""P24: sessions that work at the same time leave what they would leave one after another."""
import importlib
import os
import warnings

import numpy as np

from .. import core, sites, synth, together
from . import hnd, lcs
from .common import Sess, mkroot, same
from .p23 import MODELS

KINDS = ['interrupt', 'eio', 'enospc', 'memerr', 'kill', 'kill']
LISTS = {'sims': ('_newsimpath', ['Illustris-1', 'TNG300-3', 'TNG100-3-Dark', 'UniverseMachine-MDPL2']),
         'lcs': ('_newlcpath', ['Illustris-1', 'TNG300-3', 'UniverseMachine-MDPL2']), 'props': ('_newproppath', ['mine', 'other', 'b17 x'])}
LISTS['props'][1][2:] = ['b17_x']
MODS = ('simim', 'simim.siminterface', 'simim.lightcone', 'simim.galprops', 'simim.map', 'simim.instrument')


class P24:
    def setup(self, env):
        lcs.fast_distances()

    def generate(self, rng, tier, i):
        while True:
            spec, geo = lcs.some_cone(rng)
            if spec['sim'] not in ('_testbox',) and len(spec['zs']) <= 3:
                break
        cfg = {'spec': spec, 'geo': geo, 'dseed': rng.getrandbits(31), 'model': rng.choice(['stars', 'infrared']), 'mseed': rng.getrandbits(20)}
        cfg['site'] = sites.gen_site(rng, nsnaps=(2, 4))
        while cfg['site']['sim'] == spec['sim']:
            cfg['site'] = sites.gen_site(rng, nsnaps=(2, 4))
        topic = rng.choice([None, 'record', 'match', 'cones', 'download', 'grid', 'tables'])
        ops = []
        for k in range(rng.choice([1, 1, 2])):
            n = rng.choice([2, 2, 2, 3, 4])
            tasks, used = [], set()
            for t in range(n):
                kind = topic if topic and rng.random() < 0.8 else rng.choice(['record', 'record', 'tables', 'match', 'cones', 'download', 'grid', 'grid'])
                o = {'t': kind}
                if kind == 'record':
                    o['list'] = rng.choice(sorted(LISTS)) if rng.random() < 0.4 else 'props'
                    o['name'] = rng.choice(LISTS[o['list']][1])
                    o['where'] = rng.choice(['auto', 'auto', 'x', 'sp ace', 'ünï'])
                    if (o['list'], o['name']) in used:
                        o['where'] = 'auto'
                        for p in tasks:
                            if p['t'] == 'record' and (p['list'], p['name']) == (o['list'], o['name']):
                                p['where'] = 'auto'
                    used.add((o['list'], o['name']))
                elif kind == 'cones':
                    o.update(name=rng.choice('abcd'), seed=rng.getrandbits(20), n=rng.choice([1, 1, 2]))
                    if any(p['t'] == 'cones' and p['name'] == o['name'] for p in tasks):
                        o['name'] += str(t)
                elif kind == 'download':
                    free = [s for s in cfg['site']['snaps'] if ('raw', s) not in used]
                    if not free:
                        o = {'t': 'tables'}
                    else:
                        o['snaps'] = sorted(rng.sample(free, rng.randint(1, max(1, len(free) - 1))))
                        used.update(('raw', s) for s in o['snaps'])
                elif kind == 'grid':
                    o.update(name=rng.choice(['a', 'a', 'b']), seed=rng.getrandbits(20), overwrite=rng.random() < 0.3, compress=rng.random() < 0.3)
                if rng.random() < 0.12:
                    o['fault'] = {'after': int(10**rng.uniform(0, 2.3)), 'kind': rng.choice(KINDS), 'frac': rng.choice([0.0, 0.5, 1.0]),
                                  'phase': rng.choice(['before', 'after'])}
                    if o['fault']['kind'] not in ('interrupt', 'kill'):
                        o['fault']['phase'] = 'before'
                tasks.append(o)
            top = rng.choice([2, 5, 12, 40])
            sched = [[rng.randint(0, top) if rng.random() < 0.85 else rng.randint(0, 80), rng.randrange(3)] for _ in range(rng.choice([1, 2, 4, 10, 30, 80]))]
            ops.append({'op': 'group', 'tasks': tasks, 'sched': sched, 'first': rng.randrange(n)})
        return {'config': cfg, 'ops': ops}

    def simplify(self, plan):
        import copy
        for i, op in enumerate(plan['ops']):
            for k in range(len(op['tasks'])):
                if len(op['tasks']) > 1:
                    p = copy.deepcopy(plan)
                    del p['ops'][i]['tasks'][k]
                    yield p
                if 'fault' in op['tasks'][k]:
                    p = copy.deepcopy(plan)
                    del p['ops'][i]['tasks'][k]['fault']
                    yield p
            n = len(op['sched'])
            for size in sorted({n, n // 2, n // 4, 1}, reverse=True):
                if size:
                    for a in range(n - size, -1, -size):
                        p = copy.deepcopy(plan)
                        del p['ops'][i]['sched'][a:a + size]
                        yield p

    def execute(self, run):
        w, cfg = run.w, run.cfg
        spec, geo = cfg['spec'], cfg['geo']
        site = sites.Site(cfg['site'])
        site.publish(w)
        mod, cls, pre, names = MODELS[cfg['model']]
        mkw = {pre + 'haloprop': 'mass', pre + 'halomassmin': 1e8}
        simdir = os.path.join(w.base, 'sims', 'S')
        grids = os.path.join(w.base, 'maps')
        with core.seams_off(w):
            os.makedirs(simdir)
            os.makedirs(grids)
            props = lcs.catalog(spec, cfg['dseed'])
            synth.write_formatted(spec, simdir, props)
        zs = np.array(sorted(spec['zs']))
        xx, zz = (a.ravel() for a in np.meshgrid(np.array([60., 3e8, 3e11, 1e14]), zs))

        # -- the tasks ------------------------------------------------------------------
        def start():
            for m in MODS:
                importlib.import_module(m)

        def record(o):
            where = o['where'] if o['where'] == 'auto' else os.path.join(w.base, 'there', o['where'])
            getattr(w.mod('simim._paths')._SimIMPaths(), LISTS[o['list']][0])(o['name'], where, checkoverwrite=False)

        def tables(o):
            m = w.mod('simim.galprops.sfr_behroozi13')
            z = np.array([0., 0.5, 3.])
            x = np.array([1e10, 1e12, 1e14])
            return np.array([m.sfr(z, x, scatter=False), m.stellarmass(z, x, scatter=False)])

        def match(o):
            m = getattr(w.mod(mod), cls)(spec['sim'], **{pre + 'comp': True}, **mkw)
            return np.asarray((m.stellarmass if cfg['model'] == 'stars' else m.lir)(xx, zz))

        def cones(o):
            lc = w.mod('simim.lightcone')
            if geo['mode'] in ('box', 'circle'):
                mk = lc.LCMaker(spec['sim'], o['name'], openangle=geo['angle'], aspect=geo['aspect'], redshift_min=geo['zmin'],
                                redshift_max=geo['zmax'], mode=geo['mode'], overwrite=True)
            else:
                mk = w.mod('simim.lightcone.lcmaker').SphereMaker(spec['sim'], o['name'], redshift_min=geo['zmin'], redshift_max=geo['zmax'],
                                                                  mode=geo['mode'], overwrite=True)
            mk.build_lightcones(o['n'], rng=np.random.Generator(np.random.PCG64(o['seed'])))

        def download(o):
            si = w.mod('simim.siminterface')
            k = dict(snaps=list(o['snaps']), path='auto')
            c = si.IllustrisCatalogs(site.sim, 'key', **k) if site.kind == 'ill' else \
                si.UchuuCatalogs(site.sim, **k) if site.kind == 'uchuu' else si.UniversemachineCatalogs(site.sim, **k)
            if site.kind == 'ill':
                c.download_meta()
            c.download()

        def grid(o):
            g = w.mod('simim.map').Grid(n_properties=1, center_point=[0., 0.], side_length=[8., 8.], pixel_size=1., axunits='Mpc', gridunits='Jy')
            g.init_grid()
            g.grid[:] = np.random.RandomState(o['seed']).rand(*g.grid.shape)
            g.save(os.path.join(grids, o['name']), overwrite=o['overwrite'], compress=o['compress'])

        todo = {'record': record, 'tables': tables, 'match': match, 'cones': cones, 'download': download, 'grid': grid}

        def alone(o):
            def go():
                start()
                return todo[o['t']](o)
            w.restart()
            return w.op('alone', go)

        def lcdir(root, o):
            return os.path.join(root, 'simim_resources', 'lightcones', spec['sim'], o['name'])

        def cone_content(root, o):
            d = lcdir(root, o)
            with core.seams_off(w):
                fs = sorted(f for f in os.listdir(d) if f.endswith('.hdf5')) if os.path.isdir(d) else []
            return {f: lcs.content(w, os.path.join(d, f)) for f in fs}

        # -- what each task does alone, in another data directory --------------------------------
        s = Sess(run)
        s.start()
        ref = mkroot(run, 'ref')
        s.setup(ref)
        with core.seams_off(w):
            synth.register(w, ref, 'sims', spec['sim'], simdir)
            os.makedirs(os.path.join(w.base, 'there'))
            for n in ('x', 'sp ace', 'ünï'):
                os.mkdir(os.path.join(w.base, 'there', n))
        want = {}
        for op in run.plan['ops']:
            for o in op['tasks']:
                k = self.key(o)
                if o['t'] in ('tables', 'match', 'cones') and k not in want:
                    v = run.expect_ok(alone(o), 'alone-fails', 'task %s alone' % (o,))
                    want[k] = cone_content(ref, o) if o['t'] == 'cones' else v
        w.restart()
        s.start()
        root = mkroot(run, 'data')
        s.setup(root)
        with core.seams_off(w):
            synth.register(w, root, 'sims', spec['sim'], simdir)
        auto = {'sims': os.path.join(root, 'simim_resources', 'simulations'), 'lcs': os.path.join(root, 'simim_resources', 'lightcones'),
                'props': os.path.join(root, 'simim_resources', 'galprops')}
        here = {k: {} for k in LISTS}                  # what is certainly recorded
        here['sims'][spec['sim']] = {simdir}
        held = {}                                      # grid file -> seeds it may hold

        def recorded(o):
            """[(list, name, path)] a task records."""
            out = [('props', 'behroozi13', os.path.join(auto['props'], 'behroozi13'))]
            if o['t'] == 'record':
                out.append((o['list'], o['name'], os.path.join(auto[o['list']], o['name']) if o['where'] == 'auto' else os.path.join(w.base, 'there', o['where'])))
            elif o['t'] == 'cones':
                out.append(('lcs', spec['sim'], os.path.join(auto['lcs'], spec['sim'])))
            elif o['t'] == 'match':
                out.append(('props', ('b17_' if cfg['model'] == 'stars' else 'g13_') + spec['sim'], None))
            elif o['t'] == 'download':
                out.append(('sims', site.sim, os.path.join(auto['sims'], site.sim)))
            return out

        def lists(why):
            """The recorded locations, as a new session sees them."""
            run.expect_ok(s.start(), 'session-start', 'a new session %s' % why)
            p = run.expect_ok(w.op('paths', lambda: w.mod('simim._paths')._SimIMPaths()), 'session-start', 'reading the locations')
            for li in LISTS:
                got = getattr(p, li)
                for n, may in here[li].items():
                    run.check(n in got or None in may, 'lost-record', lambda: '%s: the location of %s in the list of %s is lost' % (why, n, li))
                    run.check(n not in got or got[n] in may or any(x == '?' for x in may), 'wrong-record', lambda: '%s: %s in the list of %s is at %r, not %s' % (
                        why, n, li, got[n], sorted(map(str, may))))
                for n in got:
                    run.check(n in here[li], 'wrong-record', lambda: '%s: %r is in the list of %s' % (why, n, li))

        def note(o, sure):
            for li, n, path in recorded(o):
                old = here[li].get(n, {None})
                new = {path or '?'}
                here[li][n] = new if sure else old | new

        def done(o, out, why):
            """A task that came to its end."""
            if o['t'] in ('tables', 'match'):
                run.check(same(out.value, want[self.key(o)]), 'wrong-values', lambda: '%s: %s gives %s, alone %s' % (why, o, out.value, want[self.key(o)]))
            elif o['t'] == 'cones':
                got, wish = cone_content(root, o), want[self.key(o)]
                run.check(got == wish, 'wrong-cones', lambda: '%s: the light cones %s are not those of a build alone (%s)' % (
                    why, o, [f for f in sorted(set(got) | set(wish)) if got.get(f) != wish.get(f)]))
            elif o['t'] == 'download':
                raw = os.path.join(auto['sims'], site.sim, 'raw')
                for i in o['snaps']:
                    for f, b in site.needed(i).items():
                        with core.seams_off(w):
                            p = os.path.join(raw, f)
                            ok = os.path.exists(p)
                            if ok:
                                with open(p, 'rb') as g:
                                    ok = g.read() == b
                        run.check(ok, 'wrong-file', lambda: '%s: %s is not there as published' % (why, f))

        def grid_seed(name):
            fn = os.path.join(grids, name + '.npz')
            with core.seams_off(w):
                if not os.path.exists(fn):
                    return None
            out = w.op('load', lambda: w.mod('simim.map').LoadGrid(fn))
            g = run.expect_ok(out, 'grid-unreadable', 'loading the grid %s' % name)
            g = np.asarray(getattr(g, 'grid', g))
            for op in run.plan['ops']:
                for o in op['tasks']:
                    if o['t'] == 'grid' and same(np.random.RandomState(o['seed']).rand(*g.shape), g):
                        return o['seed']
            return 'other'

        for i, op in run.steps():
            run.points[i] = []
            tasks = op['tasks']

            def make(o):
                def go():
                    start()
                    return todo[o['t']](o)
                return go
            w.restart()
            outs, tg = together.run(w, [make(o) for o in tasks], op['sched'], {k: [o['fault']] for k, o in enumerate(tasks) if 'fault' in o}, first=op['first'])
            why = 'after %d tasks together' % len(tasks)
            run.probe('processes', len(tasks))
            run.probe('switches', tg.switches)
            gs = {}
            for k, (o, out) in enumerate(zip(tasks, outs)):
                for f in out.fired:
                    run.probe('%s at %s' % (f['kind'], f['point']))
                if o['t'] == 'grid':
                    gs.setdefault(o['name'], []).append((o, out))
                    refused = not out.ok and not out.fired and isinstance(out.exc, (ValueError, FileExistsError))
                    run.check(out.ok or out.fired or refused and not o['overwrite'], 'task-fails', lambda: 'task %s among %s: %s %r\n%s' % (o, tasks, out.brief(), out.exc, tg.tasks[k].tb))
                else:
                    run.check(out.ok or out.fired, 'task-fails', lambda: 'task %d, %s, among %s: %s %r\n%s' % (k, o, tasks, out.brief(), out.exc, tg.tasks[k].tb))
                note(o, out.ok)
                if out.ok:
                    done(o, out, why)
            lists(why)
            for name, lst in gs.items():
                was = held.get(name, {None})
                over = [o['seed'] for o, out in lst if out.ok and o['overwrite']]
                plain = [o['seed'] for o, out in lst if out.ok and not o['overwrite']]
                maybe = [o['seed'] for o, out in lst if not out.ok and out.fired]
                if None not in was:
                    run.check(not plain, 'clobbered', lambda: 'saving %s without overwriting succeeded though it existed' % name)
                run.check(len(plain) <= 1, 'clobbered', lambda: '%d sessions saved %s without overwriting, each reporting success' % (len(plain), name))
                refused = [o for o, out in lst if not out.ok and not out.fired]
                run.check(not refused or was != {None} or over or plain or maybe, 'refused', lambda: 'saving %s was refused though it did not exist' % name)
                final = set(over) or set(plain) or set(was)
                if maybe:
                    final |= set(maybe) if not plain or any(o['overwrite'] and out.fired for o, out in lst) else set()
                now = grid_seed(name)
                run.check(now in final, 'wrong-grid', lambda: '%s holds %s after %s' % (name, now, [(o, out.brief()) for o, out in lst]))
                held[name] = {now}
            # what was stopped can be done again
            for k, (o, out) in enumerate(zip(tasks, outs)):
                if not out.ok and out.fired and o['t'] != 'grid':
                    o2 = alone(o)
                    run.expect_ok(o2, 'again-fails', 'task %s, stopped (%s), once more' % (o, out.fired))
                    note(o, True)
                    done(o, o2, 'once more')
            lists('in the end')
            for o in tasks:
                if o['t'] in ('cones', 'download'):
                    done(o, None, 'in the end')
            run.state([(o['t'], out.status) for o, out in zip(tasks, outs)], tuple(tg.path[:40]))

    @staticmethod
    def key(o):
        return (o['t'],) + ((o['name'], o['seed'], o['n']) if o['t'] == 'cones' else ())


PROP = P24()
