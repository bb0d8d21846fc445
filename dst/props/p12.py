"""P12: selections, caching and unit settings never mix up halos or values."""
import numpy as np

from .. import core, synth
from . import hnd
from .common import close

FIELDS = ['mass', 'pos_x', 'halo_id', 'inv', 'old_p', 'pos_z']


class P12:
    def generate(self, rng, tier, i):
        cfg = hnd.gen_catalog(rng)
        cfg['init'] = rng.random() < 0.6
        cfg['default_h'] = rng.random() < 0.4
        who = ['s0', 's0', 's1', 'c0', 'c0', 'c1']
        ops = []
        for k in range(rng.randint(6, 16)):
            kind = rng.choice(['select', 'select', 'select', 'load', 'unload', 'seth', 'read', 'stat', 'stat', 'simselect', 'simseth',
                               'simstat', 'simstat', 'index', 'index', 'makemem', 'scribble', 'volumes', 'reinit', 'newsnap',
                               'grid', 'grid'])
            o = {'op': kind, 'who': rng.choice(who), 'name': rng.choice(FIELDS + ['p0']), 'in_h': rng.choice([None, None, True, False])}
            if kind in ('select', 'simselect'):
                if rng.random() < 0.12:
                    o['name'] = None
                o.update(q=rng.random(), q2=rng.random(), reset=rng.random() < 0.6, open=rng.choice(['', '', 'lo', 'hi']),
                         exact=rng.random() < 0.3)
            if kind in ('load', 'unload'):
                o['names'] = rng.sample(FIELDS, rng.choice([1, 1, 2, 3]))
            if kind in ('seth', 'simseth'):
                o['v'] = rng.random() < 0.5
            if kind in ('read', 'stat', 'simstat'):
                o['all'] = rng.random() < 0.3
            if kind in ('stat', 'simstat'):
                o.update(names=[o['name']] + rng.sample(FIELDS, rng.choice([0, 1, 2])), remap=rng.random() < 0.4,
                         extra=rng.choice([0, 0, 3]), cosmo=rng.random() < 0.3)
            if kind == 'simstat':
                # a list of snapshots (fractions of those there are; above 1: one there is not)
                o['snaps'] = None if rng.random() < 0.4 else [rng.choice([rng.random()] * 12 + [1.5]) for _ in range(rng.choice([1, 1, 2, 3]))]
            if kind == 'index':
                o.update(lm=rng.uniform(7.5, 14.5), pick=rng.random() < 0.5, q=rng.random())
            if kind == 'makemem':
                o.update(c=rng.randrange(100), hd=rng.choice([0, -1, 2]))
            if kind == 'volumes':
                o['v3'] = rng.uniform(1, 1e6)
            if kind == 'grid':
                o.update(names=[o['name']] + rng.sample(FIELDS, rng.choice([0, 0, 1])), all=rng.random() < 0.3, n=[rng.randint(2, 6) for _ in range(3)],
                         lims=[None if rng.random() < 0.6 else sorted([rng.uniform(-0.1, 0.6), rng.uniform(0.62, 1.2)]) for _ in range(3)],
                         norm=rng.choice([None, None, 'cell_volume', 2.5]), freq=rng.choice([None, None, 115.27]), res=rng.random() < 0.9)
            if kind in ('read', 'stat', 'simstat', 'select', 'simselect', 'load', 'unload', 'index', 'grid') and rng.random() < 0.15:
                o['want'] = {'kinds': ('interrupt', 'eio', 'memerr'), 'points': ('h5.', 'user.')}
            ops.append(o)
        return {'config': cfg, 'ops': ops}

    def execute(self, run):
        w, cfg = run.w, run.cfg
        g = hnd.Ground(run, cones=2)
        spec = cfg['spec']
        h = spec['h']
        idx = synth.indices(spec)
        sim = g.simh(init_snaps=cfg['init'], in_h_units=cfg['default_h'])
        simd = {'h': cfg['default_h'], 'init': cfg['init']}
        C = type('C', (), {'h': h})()

        def model(props, d):
            n = len(props['mass'][0])
            return hnd.Model({k: v[:3] for k, v in props.items()}, h, d, n, {'h': h, 'cosmo': C})
        H = {}
        P = {}                    # models of the simulation's persistent handlers

        def reset_persistent():
            P.clear()
            for i in idx:
                P[i] = model(g.props[i], simd['h'])
        if simd['init']:
            reset_persistent()

        def get(who):
            """Handler and model of a snapshot or light cone."""
            if who[0] == 's':
                i = idx[int(who[1]) % len(idx)]
                if simd['init']:
                    hd = run.expect_ok(w.op('get_snap', lambda: sim.get_snap(i)), 'open', 'opening a snapshot')
                    return hd, P[i], g.simfile, 'Snapshot %d' % i
                if who not in H:
                    hd = run.expect_ok(w.op('get_snap', lambda: sim.get_snap(i)), 'open', 'opening a snapshot')
                    H[who] = (hd, model(g.props[i], simd['h']), g.simfile, 'Snapshot %d' % i)
                return H[who]
            j = int(who[1])
            if who not in H:
                hd = run.expect_ok(w.op('LCHandler', lambda: w.mod('simim.lightcone').LCHandler(
                    spec['sim'], g.set, j, in_h_units=cfg['default_h'])), 'open', 'opening a light cone')
                H[who] = (hd, model(g.cones[j], cfg['default_h']), g.lc_file(j), 'Lightcone Full')
            return H[who]

        def stat_of(m, op, in_h):
            """The statistic computed directly."""
            kw = {}
            for a, nme in argmap(op):
                kw[a] = m.value(nme, op['all'], in_h) if nme in m.names() else m.extra[nme]
            if op['extra']:
                kw['extra'] = op['extra']
            return stat(**kw)

        def stat(extra=0, **kw):
            out = []
            for a in sorted(kw):
                v = np.asarray(getattr(kw[a], 'h', kw[a]), dtype='f8')
                out += [v.size, float(np.sum(v)), float(np.sum(v.reshape(-1) * np.arange(v.size))), extra]
            return out

        def argmap(op):
            names = list(dict.fromkeys(op['names']))
            am = [('x%d' % q if op['remap'] else n, n) for q, n in enumerate(names)]
            return am + ([('cosmo', 'cosmo')] if op['cosmo'] else [])

        for k, op in run.steps():
            kind, name, in_h = op['op'], op['name'], op['in_h']
            out = None
            if kind in ('simselect', 'simstat', 'simseth', 'index', 'volumes', 'reinit'):
                hd = None
            else:
                hd, m, fn, group = get(op['who'])
                before = m.copy()
            if kind == 'select':
                lo, hi = limits(op, m)
                if lo == 'skip':
                    run.points[k] = []
                    continue
                ok = name is None or name in m.names()
                out = run.call('select', lambda: hd.set_property_range(*args_of(op, lo, hi)[0], **args_of(op, lo, hi)[1]), op)
                if ok and out.ok:
                    m.select(name, lo, hi, op['reset'], in_h)
                expect(run, out, ok, kind)
            elif kind == 'simselect':
                ms = [P[i] for i in idx] if simd['init'] else []
                big = max(ms, key=lambda x: x.n) if ms else None
                lo, hi = limits(op, big) if ms else (0, 1)
                if lo == 'skip' or any(not safe(x, name, lo, hi, simd['h'] if in_h is None else in_h) for x in ms):
                    run.points[k] = []
                    continue
                ok = simd['init'] and (name is None or all(name in x.names() for x in ms))
                if simd['init'] and not ok:
                    run.points[k] = []
                    continue
                out = run.call('sim.select', lambda: sim.set_property_range(*args_of(op, lo, hi)[0], **args_of(op, lo, hi)[1]), op)
                if out.ok:
                    for x in ms:
                        x.select(name, lo, hi, op['reset'], simd['h'] if in_h is None else in_h)
                elif out.fired:
                    # stopped part-way: each snapshot has either selection
                    for i in idx if simd['init'] else ():
                        y = P[i].copy()
                        y.select(name, lo, hi, op['reset'], simd['h'] if in_h is None else in_h)
                        hd = sim.snap_handlers[str(i)]
                        for z in (P[i], y):
                            if np.array_equal(hd.inds_active, z.inds):
                                P[i] = z
                                break
                expect(run, out, ok, kind)
            elif kind in ('load', 'unload'):
                names = [n for n in op['names'] if n in m.disk]
                if not names:
                    run.points[k] = []
                    continue
                out = run.call(kind, lambda: getattr(hd, kind + '_property')(*names), op)
                expect(run, out, True, kind)
                if out.ok:
                    getattr(m, kind)(names)
                else:
                    for n in names:
                        if hd.has_loaded(n):
                            m.load([n])
                        else:
                            m.unload([n])
            elif kind == 'seth':
                out = run.call('set_in_h_units', lambda: hd.set_in_h_units(op['v']), op)
                expect(run, out, True, kind)
                m.default_h = op['v']
            elif kind == 'simseth':
                out = run.call('set_in_h_units', lambda: sim.set_in_h_units(op['v']), op)
                expect(run, out, True, kind)
                simd['h'] = op['v']
                for x in P.values():
                    x.default_h = op['v']
                want = spec['box'] if op['v'] else spec['box'] / h
                run.check(np.isclose(sim.box_edge, want), 'box', lambda: 'box edge %r, expected %r' % (sim.box_edge, want))
            elif kind == 'reinit':
                run.points[k] = []
                out = w.op('initialize_all_snaps', lambda: sim.initialize_all_snaps(remake=True))
                run.expect_ok(out, 'fails', 'initialising the snapshots')
                simd['init'] = True
                reset_persistent()
                H = {a: b for a, b in H.items() if a[0] == 'c'}
            elif kind == 'newsnap':
                run.points[k] = []
                if op['who'][0] == 'c' or not simd['init']:
                    H.pop(op['who'], None)
            elif kind == 'read':
                out = run.call('return', lambda: hd.return_property(name, use_all_inds=op['all'], in_h_units=in_h), op)
                expect(run, out, name in m.names(), kind)
                hnd.returned(run, hd, m, name, op['all'], in_h)
            elif kind == 'scribble':
                run.points[k] = []
                if name in m.names():
                    v = run.expect_ok(w.op('return', lambda: hd.return_property(name, use_all_inds=True, in_h_units=True)), 'return', name)
                    if len(v):
                        v[...] = 7           # a user's own array from here on
                    hnd.returned(run, hd, m, name, False, None)
            elif kind == 'makemem':
                run.points[k] = []
                p = {'names': ['p0'], 'args': ['mass', 'pos_x'], 'kinds': ['f8'], 'c': op['c'], 'ret': 'list', 'hdep': [op['hd']],
                     'units': ['Mpc/h'], 'args_h': False, 'ret_h': False, 'multi': False}
                prop = hnd.make_prop(w, p)
                run.expect_ok(w.op('make', lambda: hd.make_property(prop, overwrite=True, use_all_inds=True)), 'make', 'making a property')
                m.make(p, ['p0'], True, True, {})
                hnd.adopt(run, hd, m, fn, group)
            elif kind == 'stat':
                ok = all(n in m.names() for n in op['names'])
                am = argmap(op)
                kws = {'extra': op['extra']} if op['extra'] else {}
                keep = dict(kws)
                f = lambda **kw: w.point('user.fn', 'stat', lambda: stat(**kw))  # noqa
                out = run.call('eval_stat', lambda: hd.eval_stat(
                    f, [a for a, n in am], kw_remap={a: n for a, n in am if a != n}, other_kws=kws, use_all_inds=op['all'],
                    give_args_in_h_units=in_h), op)
                expect(run, out, ok, kind)
                if out.ok:
                    same_stat(run, out.value, stat_of(m, op, in_h), 'statistic over %s' % op['who'])
                run.check(kws == keep, 'arguments', 'the arguments of the statistic were changed: %r' % kws)
            elif kind == 'grid':
                cone = op['who'][0] == 'c'
                names = [n for n in dict.fromkeys(op['names'])]
                ok = all(n in m.names() for n in names)
                eff = m.default_h if in_h is None else in_h
                kw = {'use_all_inds': op['all'], 'in_h_units': in_h}
                lims, res, span = [], [], []
                for q, (lim, nq) in enumerate(zip(op['lims'], op['n'])):
                    full = (0., spec['box'] if eff else spec['box'] / h)
                    if cone:
                        full = [(-0.5 * hd.open_angle, 0.5 * hd.open_angle), (-0.5 * hd.open_angle * hd.aspect_ratio, 0.5 * hd.open_angle * hd.aspect_ratio),
                                (hd.minimum_redshift, hd.maximum_redshift)][q]
                        if q == 2 and op['freq']:
                            full = (op['freq'] / (1 + full[1]), op['freq'] / (1 + full[0]))
                    if lim is not None:
                        full = tuple(full[0] + x * (full[1] - full[0]) for x in lim)
                        kw[('ralim', 'declim', 'zlim')[q] if cone else ('xlim', 'ylim', 'zlim')[q]] = full
                    span.append(full)
                    res.append((full[1] - full[0]) / (nq if op['res'] else 100) * (1 if not op['res'] else 1 + 1e-12))
                if op['res']:
                    kw['res'] = res
                norm = op['norm'] if not cone or op['norm'] != 'cell_volume' else None
                if norm is not None:
                    kw['norm'] = norm
                if cone and op['freq']:
                    kw['restfreq'] = op['freq']
                out = run.call('grid', lambda: hd.grid(*names, **kw), op)
                axes = ('ra', 'dec', 'redshift') if cone else ('pos_x', 'pos_y', 'pos_z')
                size = np.size(m.value(axes[0], op['all'], eff)) if axes[0] in m.names() else 0
                if ok and size:
                    expect(run, out, True, kind)
                if out.ok and size:
                    run.check(ok, 'refusal', 'a property that does not exist was gridded')
                    gridded(run, out.value, m, op, names, axes, span, res, norm, eff, op['freq'] if cone else None)
            elif kind == 'simstat':
                eff = simd['h'] if in_h is None else in_h
                use = idx if op['snaps'] is None else [idx[int(q * len(idx))] if q < 1 else idx[-1] + 3 for q in op['snaps']]
                ms = [(P[i] if simd['init'] else model(g.props[i], simd['h'])) if i in idx else None for i in use]
                ok = None not in ms and all(n in x.names() for n in op['names'] for x in ms)
                lists = {} if op['snaps'] is None else {'snaps': list(use)}
                am = argmap(op)
                kws = {'extra': op['extra']} if op['extra'] else {}
                keep = dict(kws)
                f = lambda **kw: w.point('user.fn', 'stat', lambda: stat(**kw))  # noqa
                out = run.call('snap_stat', lambda: sim.snap_stat(
                    f, [a for a, n in am], kw_remap={a: n for a, n in am if a != n}, other_kws=kws, use_all_inds=op['all'],
                    give_args_in_h_units=in_h, **lists), op)
                expect(run, out, ok, kind)
                if out.ok:
                    vals, zs = out.value
                    run.check(len(vals) == len(use) and np.allclose(zs, [spec['zs'][i - idx[0]] for i in use], rtol=1e-5), 'statistics',
                              lambda: 'statistics of snapshots %s: %d at %s' % (use, len(vals), zs))
                    for v, x, i in zip(vals, ms, use):
                        same_stat(run, v, stat_of(x, op, eff), 'statistic over snapshot %d' % i)
                run.check(kws == keep and lists.get('snaps', use) == use, 'arguments', 'the arguments of the statistic were changed: %r, %r' % (
                    kws, lists))
            elif kind == 'volumes':
                run.points[k] = []
                eff = simd['h'] if in_h is None else in_h
                v = run.expect_ok(w.op('number_volumes', lambda: sim.number_volumes(op['v3'], in_h_units=in_h)), 'fails', 'number_volumes')
                run.check(np.isclose(v, op['v3'] / (spec['box'] if eff else spec['box'] / h)**3), 'volumes', lambda: 'number of volumes %r' % v)
            elif kind == 'index':
                i = idx[int(op['who'][1]) % len(idx)]
                eff = simd['h'] if in_h is None else in_h
                mass = np.asarray(g.props[i]['mass'][0], dtype='f8')
                thr = 10**op['lm']
                if op['pick'] and len(mass):
                    thr = float(mass[int(op['q'] * len(mass))]) / (1 if eff else h)
                out = run.call('get_mass_index', lambda: sim.get_mass_index(thr, i, in_h_units=in_h), op)
                expect(run, out, True, kind)
                if out.ok:
                    lim = thr * (1 if eff else h)
                    need = int(np.count_nonzero(mass >= lim * (1 + 1e-6)))
                    most = int(np.count_nonzero(mass >= lim * (1 - 1e-6) / 10**0.1001))
                    got = int(out.value)
                    run.check(got >= need, 'leaves-out', lambda: 'mass look-up for %g gives %d, %d halos are above' % (thr, got, need))
                    run.check(got <= most, 'look-up', lambda: 'mass look-up for %g gives %d, only %d halos are above the next lower step' % (
                        thr, got, most))
            # -- the handlers, after it all
            todo = [get(op['who'])]
            if kind.startswith('sim') and simd['init']:
                todo = [(sim.snap_handlers[str(i)], P[i], g.simfile, 'Snapshot %d' % i) for i in idx]
            for hd, m, fn, group in todo:
                p = hnd.problem(w, hd, m, fn, group)
                run.check(p is None, 'state', lambda: 'after %s: %s' % (kind, p))
                for q, nm in enumerate(['mass', 'pos_x', 'halo_id', 'inv'] if k % 2 else ['p0', 'old_p', 'pos_z', 'mass']):
                    if nm in m.names():
                        hnd.returned(run, hd, m, nm, (q + k) % 3 == 0, [None, True, False][(q + k) % 3])
                if group.startswith('Snap'):
                    want = spec['box'] if m.default_h else spec['box'] / h
                    run.check(np.isclose(hd.box_edge, want) and np.isclose(hd.extra_props['box_edge'], want), 'box',
                              lambda: 'box edge of a snapshot %r, expected %r' % (hd.box_edge, want))
            run.state(kind, op['who'], sorted(m.mem), len(m.inds), m.default_h, simd['h'], simd['init'], in_h)
            for f in out.fired if out is not None else ():
                run.probe('%s at %s' % (f['kind'], f['point']))


def expect(run, out, ok, kind):
    if out.fired and not out.ok:
        return
    run.check(out.ok == ok, 'fails' if ok else 'refusal', lambda: '%s %s: %r\n%s' % (
        kind, 'was done' if out.ok else 'fails', out.exc, getattr(run.w, 'last_tb', '')))


def gridded(run, grid, m, op, names, axes, span, res, norm, eff, freq):
    """The grid holds the current selection, in the units asked for."""
    pos = [np.asarray(m.value(a, op['all'], eff), dtype='f8') for a in axes]
    if freq:
        pos[2] = freq / (1 + pos[2])
    n = np.array(op['n'] if op['res'] else [100] * 3)
    run.check(tuple(grid.grid.shape) == tuple(n) + (len(names),), 'grid', lambda: 'the grid has shape %s, expected %s' % (grid.grid.shape, tuple(n)))
    cell = np.array([(x - lo) / r for x, (lo, hi), r in zip(pos, span, res)]).T
    near = np.abs(cell - np.round(cell)) < 1e-4
    sure = ~np.any(near, axis=1)
    c = np.floor(cell).astype(int)
    inside = np.all((c >= 0) & (c < n), axis=1)
    if not np.all(sure):
        run.probe('grid with positions on a cell edge')
        return
    want = np.zeros(grid.grid.shape)
    for q, nm in enumerate(names):
        np.add.at(want[..., q], tuple(c[inside].T), np.asarray(m.value(nm, op['all'], eff), dtype='f8')[inside])
    if norm is not None:
        want = want * (1 / np.prod(res) if norm == 'cell_volume' else norm)
    run.probe('grid')
    run.check(close(grid.grid, want, 1e-5, 1e-9 * (float(np.max(np.abs(want))) if want.size else 0) + 1e-300), 'grid', lambda: 'the grid of %s over %s holds %s in all, expected %s' % (
        names, op['who'], grid.grid.sum(axis=(0, 1, 2)), want.sum(axis=(0, 1, 2))))


def limits(op, m):
    """Limits of a selection, away from any value or (without unit conversion) exactly on one."""
    name, in_h = op['name'], op['in_h']
    if name is None or name not in m.names():
        return 0.0, 1.0
    if op.get('exact') and float(m.view(name)[2]) == 0 and np.size(m.value(name, True, True)):
        v = np.sort(np.asarray(m.value(name, True, True), dtype='f8'))
        lo, hi = float(v[int(op['q'] * len(v))]), float(v[int(op['q2'] * len(v))])
    else:
        lo, hi = hnd.threshold(m, name, op['q'], in_h), hnd.threshold(m, name, op['q2'], in_h)
    if lo is None or hi is None:
        return 'skip', None
    lo, hi = min(lo, hi), max(lo, hi)
    if op['open'] == 'lo':
        lo = -np.inf
    if op['open'] == 'hi':
        hi = np.inf
    return lo, hi


def safe(m, name, lo, hi, in_h):
    """No value within rounding of a limit."""
    if name is None or name not in m.names():
        return True
    v = np.asarray(m.value(name, True, in_h), dtype='f8')
    if float(m.view(name)[2]) == 0:
        return True
    for x in (lo, hi):
        if np.isfinite(x) and np.any(np.abs(v - x) <= 2e-6 * abs(x)):
            return False
    return True


def args_of(op, lo, hi):
    if op['name'] is None:
        return (), {}
    kw = {'reset': op['reset']}
    if op['in_h'] is not None:
        kw['in_h_units'] = op['in_h']
    if np.isfinite(lo):
        kw['pmin'] = lo
    if np.isfinite(hi):
        kw['pmax'] = hi
    return (op['name'],), kw


def same_stat(run, a, b, what):
    run.check(len(a) == len(b) and close(np.array(a, dtype='f8'), np.array(b, dtype='f8'), 1e-5, 1e-9), 'statistics',
              lambda: '%s is %r, computed directly %r' % (what, a, b))


PROP = P12()
