"""P10: a handler is a faithful store of properties over any session history."""
import numpy as np

from .. import core, synth
from . import hnd

CATALOG = ['mass', 'pos_x', 'halo_id', 'inv', 'old_p', 'r_hm', 'v_y']


class P10:
    def generate(self, rng, tier, i):
        cfg = hnd.gen_catalog(rng)
        cfg['opener'] = rng.choice(['direct', 'sim', 'simz', 'init']) if cfg['kind'] == 'snap' else 'lc'
        cfg['default_h'] = rng.random() < 0.4
        pool = hnd.NAMES + CATALOG
        ops = []

        def name():
            return rng.choice(hnd.NAMES[:3] + pool)
        for k in range(rng.randint(5, 14)):
            kind = rng.choice(['make', 'make', 'make', 'make', 'load', 'unload', 'write', 'write', 'delete', 'select', 'seth', 'open',
                               'session', 'read'])
            o = {'op': kind}
            if kind == 'make':
                p = hnd.gen_prop(rng, None)
                o.update(p=p, overwrite=rng.random() < 0.5, all=rng.random() < 0.4, extra=rng.choice([0, 0, 5]))
                if rng.random() < 0.3:
                    nm = rng.sample(hnd.NAMES + ['r_hm', 'halo_id'], len(p['names']))
                    o['rename'] = nm[0] if len(nm) == 1 and rng.random() < 0.5 else nm
                    if rng.random() < 0.06:
                        o['rename'] = nm + ['surplus']
                if rng.random() < 0.3:
                    o['remap'] = {rng.choice(p['args']): rng.choice(['mass', 'inv', 'p0', 'pos_y'])}
                if rng.random() < 0.35:
                    o.update(todisk=True, odisk=rng.random() < 0.6, unload=rng.random() < 0.4,
                             dtype=rng.choice([None, None, 'f4', 'f8']))
                    o['all'] = o['all'] or rng.random() < 0.5
            elif kind in ('load', 'unload', 'delete'):
                o['names'] = [name()]
                if kind != 'delete' and rng.random() < 0.3:
                    o['names'].append(name())
            elif kind == 'write':
                o.update(names=[name()], overwrite=rng.random() < 0.5, dtype=rng.choice([None, None, None, 'f4', 'f8']))
            elif kind == 'select':
                o.update(name=rng.choice([None, 'mass', 'pos_x', 'halo_id', 'p0', 'inv']), q=rng.random(), q2=rng.random(),
                         reset=rng.random() < 0.7, in_h=rng.choice([None, True, False]))
            elif kind == 'seth':
                o['v'] = rng.random() < 0.5
            elif kind == 'read':
                o.update(name=name(), all=rng.random() < 0.5, in_h=rng.choice([None, True, False]))
            if kind in ('make', 'load', 'unload', 'read', 'select') and not o.get('todisk') and rng.random() < 0.25:
                o['want'] = {'kinds': ('interrupt', 'eio', 'memerr'), 'points': ('h5.', 'user.')}
            ops.append(o)
        return {'config': cfg, 'ops': ops}

    def execute(self, run):
        w, cfg = run.w, run.cfg
        g = hnd.Ground(run)
        spec = cfg['spec']
        if cfg['kind'] == 'snap':
            i = synth.indices(spec)[cfg['snap']]
            fn, group = g.simfile, 'Snapshot %d' % i
            props, n = g.props[i], spec['counts'][cfg['snap']]
        else:
            j = cfg['snap'] % len(g.cones)
            fn, group = g.lc_file(j), 'Lightcone Full'
            props = g.cones[j]
            n = len(props['mass'][0])
        disk = {k: (v[0], v[1], v[2]) for k, v in props.items()}
        extra = {'h': spec['h'], 'cosmo': type('C', (), {'h': spec['h']})()}

        def opened():
            """A new handler, as a new session or a second look at the data would make it."""
            if cfg['kind'] == 'lc':
                out = w.op('LCHandler', lambda: w.mod('simim.lightcone').LCHandler(spec['sim'], g.set, j, in_h_units=cfg['default_h']))
                return run.expect_ok(out, 'open', 'opening the light cone')
            sh = g.simh(init_snaps=cfg['opener'] == 'init', in_h_units=cfg['default_h'])

            def get():
                if cfg['opener'] == 'direct':
                    return w.mod('simim.siminterface').SnapHandler(fn, i, spec['zs'][cfg['snap']], sh.cosmo, spec['box'],
                                                                   in_h_units=cfg['default_h'])
                if cfg['opener'] == 'simz':
                    return sh.get_snap_from_z(spec['zs'][cfg['snap']])
                return sh.get_snap(i)
            return run.expect_ok(w.op('get_snap', get), 'open', 'opening the snapshot')

        def fresh(disk):
            return hnd.Model(disk, spec['h'], cfg['default_h'], n, extra)
        m = fresh(disk)
        hd = opened()
        caches = {}
        rest0 = None

        def rest():
            d = core.h5_dump(fn)
            return {k: v for k, v in d.items() if not k.startswith(group + '/') or k == group + '/' or k.endswith('mass_cuts')}
        with core.seams_off(w):
            rest0 = rest()

        for k, op in run.steps():
            cands = []
            out = None
            if op['op'] in ('open', 'session'):
                run.points[k] = []
                if op['op'] == 'session':
                    run.expect_ok(g.s.start(), 'session-start', 'a new session')
                hd = opened()
                m = fresh(m.disk)
                cands = [m]
            elif op['op'] == 'make':
                p = op['p']
                names = op.get('rename') or p['names']
                names = [names] if isinstance(names, str) else list(names)
                kw = dict(overwrite=op['overwrite'], use_all_inds=op['all'])
                if op.get('rename'):
                    kw['rename'] = op['rename'] if isinstance(op['rename'], str) else list(op['rename'])
                if op.get('remap'):
                    kw['kw_remap'] = dict(op['remap'])
                if op['extra']:
                    kw['other_kws'] = {'extra': op['extra']}
                if op.get('todisk'):
                    kw.update(write_to_disk=True, overwrite_to_disk=op['odisk'], unload_to_disk=op['unload'],
                              dtype_to_disk=None if any(t in ('bool', 'u1') for t in p['kinds']) else op['dtype'])
                keep = {a: (dict(b) if isinstance(b, dict) else list(b) if isinstance(b, list) else b) for a, b in kw.items()}
                prop = make_prop = hnd.make_prop(w, p, caches.setdefault(k, {}))
                a = m.copy()
                ok = True
                try:
                    if op.get('todisk') and not op['all'] and len(a.inds) != a.n:
                        raise hnd.Bad('restricted')
                    a.make(p, names, op['overwrite'], op['all'], op.get('remap') or {}, op['extra'])
                except hnd.Bad:
                    ok = False
                cands = [a] if ok else [m]
                if ok and op.get('todisk'):
                    b = a.copy()
                    try:
                        b.write(names, op['odisk'], kw['dtype_to_disk'])
                        if op['unload']:
                            b.unload(names)
                        cands = [b]
                    except hnd.Bad:
                        ok = False
                        if len(names) > 1:
                            run.points[k] = []
                            continue                       # half the names refused: not specified
                        cands = [m, a]
                out = run.call('make', lambda: hd.make_property(prop, **kw), op)
                run.check(kw == keep, 'arguments', 'the arguments of make_property were changed')
                for c in caches[k].values():
                    pass
            elif op['op'] in ('load', 'unload', 'delete'):
                names = op['names']
                if op['op'] == 'delete' and names[0] == 'mass':
                    run.points[k] = []
                    continue
                a = m.copy()
                ok = True
                pre = [m]
                try:
                    for x in names:
                        getattr(a, op['op'])([x])
                        pre.append(a.copy())
                except hnd.Bad:
                    ok = False
                cands = [a] if ok else pre
                fnc = getattr(hd, op['op'] + '_property')
                out = run.call(op['op'], lambda: fnc(*names), op)
                if out.fired and not out.ok:
                    cands = pre
            elif op['op'] == 'write':
                a = m.copy()
                ok = True
                dt = op['dtype']
                if dt and op['names'][0] in m.mem and m.mem[op['names'][0]][0].dtype.kind in 'bu':
                    dt = None
                try:
                    a.write(op['names'], op['overwrite'], dt)
                except hnd.Bad:
                    ok = False
                cands = [a] if ok else [m]
                out = run.call('write', lambda: hd.write_property(*op['names'], overwrite=op['overwrite'], dtype=dt), op)
            elif op['op'] == 'select':
                lo, hi = hnd.threshold(m, op['name'], op['q'], op['in_h']), hnd.threshold(m, op['name'], op['q2'], op['in_h'])
                if op['name'] is not None and op['name'] in m.names() and (lo is None or hi is None):
                    run.points[k] = []
                    continue
                if lo is not None and lo > hi:
                    lo, hi = hi, lo
                a = m.copy()
                ok = True
                try:
                    a.select(op['name'], lo, hi, op['reset'], op['in_h'])
                except hnd.Bad:
                    ok = False
                cands = [a] if ok else [m]
                if op['name'] is None:
                    out = run.call('select', lambda: hd.set_property_range(), op)
                else:
                    out = run.call('select', lambda: hd.set_property_range(op['name'], lo or 0, hi or 0, reset=op['reset'],
                                                                           in_h_units=op['in_h']), op)
            elif op['op'] == 'seth':
                a = m.copy()
                a.default_h = op['v']
                cands, ok = [a], True
                out = run.call('set_in_h_units', lambda: hd.set_in_h_units(op['v']), op)
            elif op['op'] == 'read':
                cands = [m]
                ok = op['name'] in m.names()
                out = run.call('return', lambda: hd.return_property(op['name'], use_all_inds=op['all'], in_h_units=op['in_h']), op)
                if out.ok:
                    hnd.returned(run, hd, m, op['name'], op['all'], op['in_h'])
            if out is not None:
                if out.fired and not out.ok:
                    if op['op'] not in ('load', 'unload'):
                        cands = [m]
                else:
                    run.check(out.ok == ok, 'refusal' if not ok else 'fails',
                              lambda: '%s %s: %r\n%s' % (op['op'], 'must be refused but was done' if out.ok else 'fails', out.exc,
                                                         getattr(w, 'last_tb', '')))
            probs = [hnd.problem(w, hd, c, fn, group) for c in cands]
            good = [c for c, p in zip(cands, probs) if p is None]
            run.check(good, 'state', lambda: 'after %s: %s' % (op['op'], ' / '.join(p for p in probs)))
            m = good[0] if len(good) == 1 else hnd.choose(run, hd, good)
            hnd.adopt(run, hd, m, fn, group)
            with core.seams_off(w):
                r = rest()
            run.check(r == rest0, 'rest', lambda: 'after %s: something else in the file changed: %s' % (
                op['op'], [x for x in set(r) | set(rest0) if r.get(x) != rest0.get(x)]))
            # every property named, and two others, in each unit convention
            names = list(dict.fromkeys((op.get('names') or []) + ((op.get('p') or {}).get('names') or []) + sorted(m.mem)[:2]))
            if k == len(run.plan['ops']) - 1 or op['op'] == 'open':
                names = sorted(m.names())
            for q, nm in enumerate(names[:12]):
                hnd.returned(run, hd, m, nm, (q + k) % 2 == 0, [None, True, False][(q + k) % 3])
                if (q + k) % 4 == 0:
                    # the caller works on what it was given, in place
                    got = w.op('return', lambda: hd.return_property(nm, use_all_inds=k % 2 == 0, in_h_units=[None, True, False][q % 3]))
                    if got.ok and isinstance(got.value, np.ndarray) and got.value.size and got.value.flags.writeable:
                        got.value[...] = got.value[::-1] + 1 if got.value.dtype.kind != 'b' else ~got.value
                        hnd.returned(run, hd, m, nm, (q + k) % 2 == 0, [None, True, False][(q + k) % 3])
                        run.probe('returned values changed by the caller')
            run.state(op['op'], sorted(m.mem), sorted(m.disk), len(m.inds), m.default_h, out is None or out.ok)
            for f in out.fired if out is not None else ():
                run.probe('%s at %s' % (f['kind'], f['point']))


PROP = P10()
