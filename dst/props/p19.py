"""P19: evaluating statistics leaves a handler exactly as it was."""
import copy

import numpy as np

from .. import core, synth
from . import hnd
from .common import close

FIELDS = ['mass', 'pos_x', 'halo_id', 'inv', 'old_p', 'pos_z']
FAULTS = ('interrupt', 'eio', 'memerr')


class P19:
    def generate(self, rng, tier, i):
        cfg = hnd.gen_catalog(rng, lc=1)
        cfg.update(init=rng.random() < 0.6, default_h=rng.random() < 0.5, shape=rng.choice(['box', 'circle']),
                   angle=rng.choice([0.03, 0.011]), aspect=rng.choice([1.0, 0.5]))
        ops = []
        for k in range(rng.randint(5, 14)):
            kind = rng.choice(['stat', 'stat', 'evo', 'evo', 'evo', 'evo', 'evo', 'prop', 'simstat', 'select', 'select', 'load', 'unload', 'seth',
                               'makemem', 'plot', 'session'] if i % 5 == 0 else
                              ['stat', 'stat', 'evo', 'evo', 'evo', 'evo', 'evo', 'prop', 'simstat', 'select', 'select', 'load', 'unload', 'seth',
                               'makemem'])
            o = {'op': kind, 'who': rng.choice(['c0', 'c0', 'c1', 'c2']) if kind == 'evo' else rng.choice(['s0', 's1', 'c0', 'c0', 'c1', 'c2']),
                 'name': rng.choice(FIELDS), 'in_h': rng.choice([None, None, True, False])}
            if kind == 'select':
                o.update(name=rng.choice(FIELDS + ['redshift', 'redshift', None]), q=rng.random(), q2=rng.random(), reset=rng.random() < 0.6)
            elif kind in ('load', 'unload'):
                o['names'] = rng.sample(FIELDS + ['redshift'], rng.choice([1, 2, 3]))
            elif kind == 'seth':
                o['v'] = rng.random() < 0.5
            elif kind == 'makemem':
                o.update(c=rng.randrange(100), hd=rng.choice([0, -1, 2]))
            elif kind == 'session':
                pass
            else:
                o['all'] = rng.random() < 0.3
                o.update(names=[o['name']] + rng.sample(FIELDS + ['redshift', 'p0'], rng.choice([0, 1, 2])), remap=rng.random() < 0.4,
                         kws={x: rng.choice([3, 0.5, -1]) for x in rng.sample(['zmin', 'zmax', 'volume', 'extra', 'bin'], rng.choice([0, 0, 0, 1, 2]))},
                         pass_kws=rng.random() < 0.5, cosmo=rng.random() < 0.2,
                         how=rng.choice(['plain'] * 6 + ['scribble', 'scribble', 'sort', 'return', 'nested', 'keep']),
                         nested=rng.choice(['s0', 'c0', 'c1', 'c2']),
                         fail=rng.choice([None, None, None, None, 0, 1, 2]))
                if o['how'] in ('scribble', 'sort'):
                    o.update(preload=rng.random() < 0.7, all=rng.random() < 0.6)
                if kind == 'evo':
                    o.update(edges=[rng.random() for _ in range(rng.choice([1, 2, 2, 3, 4, 6]))], form=rng.choice(['list', 'array', 'tuple', 'sorted']),
                             zmin=rng.random() < 0.4, zmax=rng.random() < 0.4, vol=rng.random() < 0.4,
                             range=rng.choice(['in', 'in', 'in', 'full', 'out']))
                    for x, y in (('zmin', 'zmin'), ('zmax', 'zmax'), ('vol', 'volume')):
                        if o[x]:
                            o['kws'].pop(y, None)
                if kind == 'prop':
                    o['prop'] = hnd.gen_prop(rng, None, args=FIELDS, fail=0)
                    o['prop']['args'] = [a for a in o['prop']['args'] if a not in ('h', 'cosmo')]
                if kind == 'plot':
                    o.update(what=rng.choice(['plot', 'plot', 'hist']), pkws=rng.choice([None, {}, {'alpha': 0.5}, {'ls': '-'}, {'marker': 'x'}]),
                             akws=rng.choice([None, {'xlabel': 'x'}]), compare=rng.random() < 0.2)
                if rng.random() < 0.35:
                    o['want'] = {'kinds': FAULTS, 'points': ('h5.', 'user.') if rng.random() < 0.6 else ('user.',)}
            ops.append(o)
        return {'config': cfg, 'ops': ops}

    def execute(self, run):
        w, cfg = run.w, run.cfg
        g = hnd.Ground(run, cones=0)
        spec = cfg['spec']
        h = spec['h']
        idx = synth.indices(spec)
        from astropy.cosmology import FlatLambdaCDM
        C = FlatLambdaCDM(H0=100 * h, Om0=synth.metadata(spec)['cosmo_omega_matter'], Tcmb0=2.7255, Ob0=synth.metadata(spec)['cosmo_omega_baryon'])
        with core.seams_off(w):
            import os
            r = np.random.RandomState(cfg['dseed'] % (2**32))
            for j in range(3):
                n = int(r.choice([0, 4, 9, 17, 40]))
                g.cones[j] = hnd.lc_props(spec, j, cfg['dseed'], n)
                hnd.write_lc(spec, os.path.join(g.lcdir, g.set), j, g.cones[j], shape=cfg['shape'], angle=cfg['angle'], aspect=cfg['aspect'])

        def model(props, d):
            return hnd.Model({k: v[:3] for k, v in props.items()}, h, d, len(props['mass'][0]), {'h': h, 'cosmo': C})
        H, kept = {}, []

        def restart():
            H.clear()
            sim = g.simh(init_snaps=cfg['init'], in_h_units=cfg['default_h'])
            for q in range(2):
                i = idx[q % len(idx)]
                if q and len(idx) == 1:
                    H['s1'] = H['s0']
                    continue
                hd = run.expect_ok(w.op('get_snap', lambda: sim.get_snap(i)), 'open', 'opening a snapshot')
                md = model(g.props[i], cfg['default_h'])
                md.extra['redshift'] = spec['zs'][q % len(idx)]
                H['s%d' % q] = [hd, md, g.simfile, 'Snapshot %d' % i, None]
            for j in range(3):
                hd = run.expect_ok(w.op('LCHandler', lambda: w.mod('simim.lightcone').LCHandler(
                    spec['sim'], g.set, j, in_h_units=cfg['default_h'])), 'open', 'opening a light cone')
                H['c%d' % j] = [hd, model(g.cones[j], cfg['default_h']), g.lc_file(j), 'Lightcone Full', None]
            for a in H:
                H[a][4] = rest(H[a][0])
            return sim

        def rest(hd):
            """State apart from properties and selection."""
            m = {k: repr(v) for k, v in sorted(getattr(hd, 'metadata', {}).items())}
            x = {k: repr(v) for k, v in sorted(hd.extra_props.items()) if k not in ('box_edge',)}
            return m, x, hd.h, int(hd.nhalos_all), [int(v) for v in hd.inds_all]

        def state(who, what, full, k):
            hd, m, fn, group, before = H[who]
            run.check(hd.default_in_h_units == m.default_h, 'state', lambda: 'after %s the default unit convention is %s' % (what, hd.default_in_h_units))
            p = hnd.problem(w, hd, m, fn, group, disk=full)
            run.check(p is None, 'state', lambda: 'after %s: %s' % (what, p))
            if not full:
                return
            run.check(rest(hd) == before, 'state', lambda: 'after %s: %r, before %r' % (what, rest(hd), before))
            for n in sorted(set(sorted(m.names())[k % 3::3]) | set(m.mem)):
                hnd.returned(run, hd, m, n, False, True)

        def number(x):
            x = getattr(x, 'h', x)
            return np.asarray(x, dtype='f8')

        def stat(kw):
            out = []
            for a in sorted(kw):
                v = number(kw[a])
                out += [v.size, float(np.sum(v)), float(np.sum(v.reshape(-1) * np.arange(1, v.size + 1)))]
            return sorted(kw), out

        def user(op, calls):
            """The user's function."""
            def f(**kw):
                k = len(calls)
                calls.append(k)
                w.point('user.fn', 'stat', lambda: None)
                if op['fail'] == k:
                    raise hnd.UserError('call %d' % k)
                v = stat(kw)
                if op['how'] == 'scribble':
                    for a in kw.values():
                        if isinstance(a, np.ndarray) and a.ndim:
                            a[...] = 7
                elif op['how'] == 'sort':
                    for a in kw.values():
                        if isinstance(a, np.ndarray) and a.ndim:
                            a[::-1].sort()
                elif op['how'] == 'keep':
                    kept.append(kw)
                elif op['how'] == 'return':
                    return kw
                elif op['how'] == 'nested' and op['nested'] != op['who'] and H[op['nested']] is not H[op['who']]:
                    o = dict(op, who=op['nested'], how='plain', fail=None, names=['mass', 'redshift' if op['nested'][0] == 'c' else 'pos_x'], kws={},
                             pass_kws=False, edges=[0.2, 0.5, 0.9], form='list', zmin=True, zmax=False, vol=True, range='in')
                    got = evaluate(o, 'evo' if op['nested'][0] == 'c' else 'stat', [])
                    direct(o, 'evo' if op['nested'][0] == 'c' else 'stat', got, H[o['who']][1])
                return v
            return f

        def argmap(op):
            names = list(dict.fromkeys(op['names']))
            am = [('x%d' % q if op['remap'] else n, n) for q, n in enumerate(names)]
            return am + ([('cosmo', 'cosmo')] if op['cosmo'] else [])

        def edges(op, m):
            """Redshift bins none of whose edges is on an entry."""
            z0, z1 = 0.2, 1.0
            if op['range'] == 'out':
                z0, z1 = 0.1, 1.2
            e = [z0 + q * (z1 - z0) for q in op['edges']]
            if op['range'] == 'full':
                e = [0.2, 1.0] + e[2:]
            z = np.asarray(m.value('redshift', True, True))
            e = [x for x in dict.fromkeys(e) if x in (0.2, 1.0) or not np.any(np.abs(z - x) < 1e-9)]
            return {'list': list, 'array': np.array, 'tuple': tuple, 'sorted': sorted}[op['form']](e)

        def arguments(op, kind, m):
            am = argmap(op)
            a = {'kwargs': [x for x, n in am], 'kw_remap': {x: n for x, n in am if x != n}}
            if op['pass_kws'] or op['kws']:
                a['other_kws'] = dict(op['kws'])
            if op['in_h'] is not None:
                a['give_args_in_h_units'] = op['in_h']
            if kind == 'evo':
                a['redshift_bins'] = edges(op, m)
                a.update({k: True for k, f in (('zmin_kw', op['zmin']), ('zmax_kw', op['zmax']), ('volume_kw', op['vol'])) if f})
            else:
                a['use_all_inds'] = op['all']
            return a

        def evaluate(op, kind, calls, handler=None):
            hd, m = H[op['who']][:2]
            a = arguments(op, kind, m)
            keep = copy.deepcopy(a)
            box = []
            try:
                fn = handler.snap_stat if handler is not None else hd.eval_stat_evo if kind == 'evo' else hd.eval_stat
                box = fn(stat_function=user(op, calls), **a)
            finally:
                # also when it raises or is stopped
                same = all(np.array_equal(a[k], keep[k]) and type(a[k]) is type(keep[k]) for k in keep) and set(a) == set(keep)
                if not same:
                    run.fail('arguments', "the caller's arguments were changed: %r, given %r" % (a, keep))
            return box

        def direct_one(op, m, inds, all_inds, extra):
            in_h = m.default_h if op['in_h'] is None else op['in_h']
            kw = dict(op['kws'])
            kw.update(extra)
            for a, n in argmap(op):
                kw[a] = m.value(n, True, in_h)[np.arange(m.n) if all_inds else inds] if n in m.names() else m.extra[n]
            return stat(kw)

        def same(got, want, what):
            if isinstance(got, dict):
                got = stat(got)
            run.check(got[0] == want[0], 'statistics', lambda: '%s: the function was given %s, expected %s' % (what, got[0], want[0]))
            run.check(close(np.array(got[1]), np.array(want[1]), 1e-5, 1e-9), 'statistics', lambda: '%s: %r, computed directly %r' % (what, got, want))

        def volume(z0, z1, in_h):
            v = C.comoving_volume(z1).value - C.comoving_volume(z0).value
            area = np.pi * cfg['angle']**2 / 4 if cfg['shape'] == 'circle' else cfg['angle']**2 * cfg['aspect']
            return v * area / (4 * np.pi) * (h**3 if in_h else 1)

        def direct(op, kind, got, m):
            if kind == 'stat':
                same(got, direct_one(op, m, m.inds, op['all'], {}), 'statistic over %s' % op['who'])
                return
            e = np.sort(edges(op, m))
            run.check(np.array_equal(got[0], e) and len(got[1]) == max(0, len(e) - 1), 'bins', lambda: 'bins %r, %d results, for %r' % (
                got[0], len(got[1]), e))
            z = np.asarray(m.value('redshift', True, True))
            in_h = m.default_h if op['in_h'] is None else op['in_h']
            for b in range(len(e) - 1):
                x = {}
                if op['zmin']:
                    x['zmin'] = e[b]
                if op['zmax']:
                    x['zmax'] = e[b + 1]
                if op['vol']:
                    x['volume'] = volume(e[b], e[b + 1], in_h)
                same(got[1][b], direct_one(op, m, np.nonzero((z >= e[b]) & (z <= e[b + 1]))[0], False, x), 'bin %d of %d of %s' % (
                    b, len(e) - 1, op['who']))

        sim = restart()
        for k, op in run.steps():
            kind, name, in_h = op['op'], op['name'], op['in_h']
            if kind == 'session':
                run.points[k] = []
                run.expect_ok(g.s.start(), 'session-start', 'a new session')
                sim = restart()
                continue
            hd, m, fn, group = H[op['who']][:4]
            out = None
            if op.get('preload') and kind in ('stat', 'evo', 'prop'):
                names = [n for n in dict.fromkeys(op['names']) if n in m.disk]
                run.expect_ok(w.op('load', lambda: hd.load_property(*names)), 'fails', 'loading')
                m.load(names)
            if kind == 'select':
                run.points[k] = []
                if name is not None and name not in m.names():
                    continue
                lo, hi = hnd.threshold(m, name, op['q'], in_h), hnd.threshold(m, name, op['q2'], in_h)
                if name is not None and (lo is None or hi is None):
                    continue
                a = (name,) if name is None else (name, min(lo, hi), max(lo, hi))
                kw = {} if name is None else {'reset': op['reset'], 'in_h_units': in_h}
                run.expect_ok(w.op('select', lambda: hd.set_property_range(*a, **kw)), 'fails', 'selecting')
                m.select(name, a[-2] if name else 0, a[-1], op['reset'], in_h)
            elif kind in ('load', 'unload'):
                run.points[k] = []
                names = [n for n in op['names'] if n in m.disk]
                if names:
                    run.expect_ok(w.op(kind, lambda: getattr(hd, kind + '_property')(*names)), 'fails', kind)
                    getattr(m, kind)(names)
            elif kind == 'seth':
                run.points[k] = []
                run.expect_ok(w.op('set_in_h_units', lambda: hd.set_in_h_units(op['v'])), 'fails', 'setting the units')
                m.default_h = op['v']
            elif kind == 'makemem':
                run.points[k] = []
                p = {'names': ['p0'], 'args': ['mass', 'pos_x'], 'kinds': ['f8'], 'c': op['c'], 'ret': 'list', 'hdep': [op['hd']],
                     'units': ['Mpc/h'], 'args_h': False, 'ret_h': False, 'multi': False}
                run.expect_ok(w.op('make', lambda: hd.make_property(hnd.make_prop(w, p), overwrite=True, use_all_inds=True)), 'make', 'making a property')
                m.make(p, ['p0'], True, True, {})
                hnd.adopt(run, hd, m, fn, group)
            elif kind in ('stat', 'evo'):
                calls = []
                ok = all(n in m.names() or n in m.extra for n in op['names'])
                e = edges(op, m) if kind == 'evo' else None
                if kind == 'evo':
                    if len(e) < 2:
                        ok = True
                    elif op['vol'] and (min(e) < 0.2 or max(e) > 1):
                        ok = False
                ncalls = max(0, len(e) - 1) if kind == 'evo' else 1
                if op['fail'] is not None and op['fail'] < ncalls:
                    ok = False
                out = run.call(kind, lambda: evaluate(op, kind, calls), op)
                if not (out.fired and not out.ok):
                    run.check(out.ok == ok, 'fails' if ok else 'refusal', lambda: '%s %s: %r\n%s' % (
                        kind, 'was done' if out.ok else 'fails', out.exc, getattr(w, 'last_tb', '')))
                if out.ok:
                    direct(op, kind, out.value, m)
                run.probe('%s %s' % (kind, 'done' if out.ok else 'stopped'))
                # what comes later is not influenced by it
                for who in (op['who'], op['nested']):
                    o = dict(op, who=who, how='plain', fail=None, names=['mass'], kws={}, pass_kws=False, edges=[0.15, 0.6, 0.9], form='list', zmin=False,
                             zmax=False, vol=False, range='in')
                    for kd in ('stat', 'evo') if who[0] == 'c' else ('stat',):
                        v = run.expect_ok(w.op('later', lambda: evaluate(o, kd, [])), 'fails', 'a later evaluation')
                        direct(o, kd, v, H[who][1])
            elif kind == 'prop':
                p = op['prop']
                prop = hnd.make_prop(w, p)
                a = {'use_all_inds': op['all']}
                out = run.call('evaluate', lambda: prop.evaluate(hd, **a), op)
                if not (out.fired and not out.ok):
                    run.expect_ok(out, 'fails', 'evaluating a property')
                if out.ok:
                    vals = out.value if p['multi'] or len(p['names']) > 1 else [out.value]
                    want = m.evaluate(p, op['all'], {})
                    for v, x in zip(vals, want):
                        run.check(hnd.same_value((v, '', 0), (x[0], '', 0), 5e-6), 'values', lambda: 'evaluating %s gives %r, expected %r' % (
                            p['names'], v, x[0]))
            elif kind == 'simstat':
                calls = []
                o = dict(op, names=[n for n in op['names'] if n not in ('redshift', 'p0')])
                out = run.call('snap_stat', lambda: evaluate(o, kind, calls, sim), op)
                if not (out.fired and not out.ok):
                    ok = op['fail'] is None or op['fail'] >= len(idx)
                    run.check(out.ok == ok, 'fails' if ok else 'refusal', lambda: 'snap_stat %s: %r\n%s' % (
                        'was done' if out.ok else 'fails', out.exc, getattr(w, 'last_tb', '')))
                if out.ok:
                    vals, zs = out.value
                    run.check(len(vals) == len(idx), 'statistics', 'statistics of %d snapshots' % len(vals))
                    for v, i in zip(vals, idx):
                        mm = model(g.props[i], cfg['default_h'])
                        if cfg['init']:
                            for q in H.values():
                                if q[3] == 'Snapshot %d' % i:
                                    mm.inds = q[1].inds
                        same(v, direct_one(dict(o, in_h=cfg['default_h'] if op['in_h'] is None else op['in_h']), mm, mm.inds, op['all'], {}),
                             'snapshot %d' % i)
            elif kind == 'plot':
                import matplotlib.pyplot as plt
                pk, ak = copy.deepcopy(op['pkws']), copy.deepcopy(op['akws'])
                a = {'in_h_units': in_h} if in_h is not None else {}
                a['use_all_inds'] = 'compare' if op['compare'] and op['what'] == 'plot' else op['all']
                if op['what'] == 'hist' and pk:
                    pk = {'alpha': 0.5}
                if pk is not None:
                    a['plotkws'] = pk
                if ak is not None:
                    a['axkws'] = ak
                keep = copy.deepcopy(a)
                names = [n for n in dict.fromkeys(op['names']) if n in m.names()]
                out = run.call('plot', lambda: getattr(hd, op['what'])(*(names if op['what'] == 'hist' else ['mass'] + names), **a), op)
                if not (out.fired and not out.ok):
                    run.expect_ok(out, 'fails', 'plotting')
                run.check(a == keep, 'arguments', lambda: "the caller's arguments were changed: %r, given %r" % (a, keep))
                if out.ok and op['what'] == 'plot':
                    lines = plt.gcf().axes[0].get_lines()
                    run.check(len(lines) == len(names) * (2 if a['use_all_inds'] == 'compare' else 1), 'plot', lambda: '%d lines' % len(lines))
                    if a['use_all_inds'] != 'compare':
                        for n, l in zip(names, lines):
                            run.check(close(np.asarray(l.get_ydata(), 'f8'), np.asarray(m.value(n, op['all'], in_h), 'f8'), 1e-5), 'plot', 'the points drawn for %s' % n)
                    want = (op['pkws'] or {}).get('ls', 'None')
                    run.check(all(l.get_linestyle() == want for l in lines), 'plot', lambda: 'lines drawn as %r' % [l.get_linestyle() for l in lines])
                plt.close('all')
            for who in sorted(H):
                state(who, kind if out is None else '%s on %s that %s' % (kind, op['who'], 'returned' if out.ok else 'was stopped'),
                      who in (op['who'], op.get('nested')) or k == len(run.plan['ops']) - 1, k)
            run.state(kind, op['who'], len(m.inds), m.default_h, op.get('how'), op.get('fail'), None if out is None else out.status,
                      [f['point'] for f in out.fired] if out is not None else [])
            for f in out.fired if out is not None else ():
                run.probe('%s at %s' % (f['kind'], f['point']))


PROP = P19()
