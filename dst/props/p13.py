"""P13: whole-simulation property edits reach every snapshot and are repeatable."""
import numpy as np

from .. import core, synth
from . import hnd

KINDS = ('interrupt', 'eio', 'enospc', 'memerr', 'kill')
OWN = ['mass', 'pos_x', 'r_hm', 'halo_id', 'v_y', 'inv']


class P13:
    def generate(self, rng, tier, i):
        cfg = hnd.gen_catalog(rng, lc=0)
        while len(cfg['spec']['zs']) < 2:
            cfg = hnd.gen_catalog(rng, lc=0)
        cfg['init'] = rng.random() < 0.5
        cfg['default_h'] = rng.random() < 0.4
        if rng.random() < 0.25:
            cfg['partial'] = rng.getrandbits(6)       # snapshots that lack old_p (an earlier edit that was stopped)
        ops = []
        for k in range(rng.randint(3, 8)):
            kind = rng.choice(['make', 'make', 'make', 'delete', 'delete', 'session', 'mem', 'one'])
            o = {'op': kind}
            if kind in ('make', 'mem', 'one'):
                p = hnd.gen_prop(rng, None, args=['mass', 'pos_x', 'halo_id', 'inv'], multi=0.35, fail=0.05)
                p['names'] = rng.sample(['p0', 'p1', 'p2', 'old_p'], len(p['names']))
                o.update(p=p, overwrite=rng.random() < 0.6, extra=rng.choice([0, 0, 4]), all=rng.random() < 0.4)
                if kind != 'mem' and rng.random() < 0.15:
                    o['rename'] = rng.sample(OWN + ['p0'], len(p['names']))
                if rng.random() < 0.25:
                    o['remap'] = {p['args'][0]: rng.choice(['pos_y', 'r_hm'])}
                o['dtype'] = rng.choice([None, None, 'f4'])
                if kind == 'one':
                    o['which'] = rng.randrange(4)
            if kind == 'delete':
                o['names'] = [rng.choice(['p0', 'p1', 'p2', 'old_p', 'p0', 'p1'] + OWN)]
                if rng.random() < 0.35:
                    o['names'].append(rng.choice([x for x in ['p0', 'p1', 'old_p'] + OWN if x not in o['names']]))
            if kind in ('make', 'delete'):
                o['retry'] = rng.choice(['same', 'same', 'new', None])
                if rng.random() < 0.7:
                    o['want'] = {'kinds': KINDS, 'points': ('h5.', 'user.') if rng.random() < 0.9 else None}
            ops.append(o)
        return {'config': cfg, 'ops': ops}

    def execute(self, run):
        w, cfg = run.w, run.cfg
        g = hnd.Ground(run, cones=0)
        spec = cfg['spec']
        idx = synth.indices(spec)
        if cfg.get('partial'):
            with core.seams_off(w):
                import h5py
                with h5py.File(g.simfile, 'a') as f:
                    for q, i in enumerate(idx):
                        if cfg['partial'] >> q & 1:
                            del f['Snapshot %d' % i]['old_p']
                            del g.props[i]['old_p']
        C = type('C', (), {'h': spec['h']})()
        disk = {i: {k: v[:3] for k, v in g.props[i].items()} for i in idx}
        own = {i: {k for k, v in g.props[i].items() if not v[3]} for i in idx}
        st = {}

        def opened():
            st['sim'] = g.simh(init_snaps=cfg['init'], in_h_units=cfg['default_h'])
            st['mem'] = {i: {} for i in idx}
        opened()

        def rest():
            return {k: v for k, v in core.h5_dump(g.simfile).items() if '/' not in k.strip('/') or k.endswith('mass_cuts')}
        with core.seams_off(w):
            rest0 = rest()

        def look(concerned, allowed, why, one=None):
            for i in idx:
                got = hnd.read_group(w, g.simfile, 'Snapshot %d' % i)
                for k in set(got) | set(disk[i]):
                    if k in concerned:
                        continue
                    run.check(k in got and k in disk[i] and hnd.same_value(got[k], disk[i][k]), 'damaged', lambda: (
                        '%s: snapshot %d: %s is %r, was %r' % (why, i, k, got.get(k), disk[i].get(k))))
                for k in concerned:
                    opts = allowed(i, k)
                    ok = any((v is None and k not in got) or (v is not None and k in got and hnd.same_value(got[k], v, 5e-6)) for v in opts)
                    run.check(ok, 'not-reached', lambda: '%s: snapshot %d: %s is %r, expected %r' % (
                        why, i, k, got.get(k), opts))
                    if k in got:
                        disk[i][k] = got[k]
                    else:
                        disk[i].pop(k, None)
            with core.seams_off(w):
                r = rest()
            run.check(r == rest0, 'damaged', lambda: '%s: something else in the file changed: %s' % (
                why, [x for x in set(r) | set(rest0) if r.get(x) != rest0.get(x)]))
            # through the handlers of this session
            for q, i in enumerate(idx):
                out = w.op('get_snap', lambda: st['sim'].get_snap(i))
                hd = run.expect_ok(out, 'unreadable', '%s: opening snapshot %d' % (why, i))
                for k in sorted(own[i])[q % 2::3] + [c for c in concerned if c in disk[i] and c not in st['mem'][i]]:
                    if k not in hd.properties_all and not cfg['init']:
                        run.fail('unreadable', '%s: snapshot %d lists no %s' % (why, i, k))
                    if k not in hd.properties_all:
                        continue
                    v = run.expect_ok(w.op('return', lambda: hd.return_property(k, use_all_inds=True, in_h_units=True)), 'unreadable',
                                      '%s: reading %s' % (why, k))
                    run.check(hnd.same_value((v, '', 0), (np.asarray(disk[i][k][0]).reshape(-1), '', 0)) or
                              (cfg['init'] and k in concerned and 'stopped' in why), 'in-memory',
                              lambda: '%s: snapshot %d gives %s = %r, stored %r' % (why, i, k, v, disk[i][k]))

        def wanted(op, i, names):
            """What the property would be in one snapshot: {name: value}; Bad when the user's function fails."""
            m = hnd.Model(disk[i], spec['h'], cfg['default_h'], len(g.props[i]['mass'][0]), {'h': spec['h'], 'cosmo': C})
            m.mem = dict(st['mem'][i])
            m.make(op['p'], names, True, True, op.get('remap') or {}, op['extra'])
            out = {}
            for n in names:
                v, un, hd = m.mem[n]
                out[n] = (v if dt is None else v.astype(dt), un, hd)
            return out

        for k, op in run.steps():
            dt = None
            why = 'after %s' % op['op']
            if op['op'] == 'session':
                run.points[k] = []
                run.expect_ok(g.s.start(), 'session-start', 'a new session')
                opened()
                look([], None, why)
                continue
            if op['op'] in ('make', 'mem', 'one'):
                p = op['p']
                names = list(op.get('rename') or p['names'])
                if op['op'] == 'make':
                    dt = op['dtype'] if all(t in ('f8', 'f4', 'cached', 'nan') for t in p['kinds']) else None
                ok = True
                req = {}
                try:
                    for i in idx:
                        req[i] = wanted(op, i, names)
                except hnd.Bad:
                    ok = False
                prop = hnd.make_prop(w, p)
                kw = dict(overwrite=op['overwrite'], use_all_inds=op['all'])
                if op.get('rename'):
                    kw['rename'] = list(names)
                if op.get('remap'):
                    kw['kw_remap'] = dict(op['remap'])
                if op['extra']:
                    kw['other_kws'] = {'extra': op['extra']}
            if op['op'] == 'mem':
                run.points[k] = []
                taken = any(n in disk[i] or n in st['mem'][i] for n in names for i in idx)
                if (taken and not op['overwrite']) or not ok:
                    continue
                out = w.op('make', lambda: st['sim'].make_property(prop, write=False, **kw))
                run.check(out.ok == cfg['init'], 'fails', lambda: 'making in memory: %r' % out.exc)
                if out.ok:
                    for i in idx:
                        st['mem'][i].update(req[i])
                look([], None, why)
                continue
            if op['op'] == 'one':
                # one snapshot by itself
                run.points[k] = []
                i = idx[op['which'] % len(idx)]
                if not ok or any(n in own[i] for n in names):
                    continue
                hd = run.expect_ok(w.op('get_snap', lambda: st['sim'].get_snap(i)), 'unreadable', 'opening a snapshot')
                kw['overwrite'] = True
                out = w.op('make', lambda: hd.make_property(prop, write_to_disk=True, overwrite_to_disk=True, unload_to_disk=True, **kw))
                run.expect_ok(out, 'fails', 'making a property for one snapshot')
                for n in names:
                    st['mem'][i].pop(n, None)
                look(names, lambda j, n: [req[j][n] if j == i else disk[j].get(n)], why)
                continue
            before = {i: dict(disk[i]) for i in idx}
            if op['op'] == 'make':
                exists = any(n in disk[i] for n in names for i in idx)
                inmem = any(n in st['mem'][i] for n in names for i in idx)
                isown = any(n in own[i] for n in names for i in idx)
                allowed = ok and not isown and (op['overwrite'] or not exists)
                must = allowed and (op['overwrite'] or not inmem)

                def call(ow=op['overwrite']):
                    return st['sim'].make_property(prop, write=True, writedtype=dt, **dict(kw, overwrite=ow))
            else:
                names = op['names']
                there = [n for n in names if any(n in disk[i] for i in idx)]
                isown = any(n in own[i] for n in names for i in idx)
                allowed = must = not isown and len(there) == len(names)
                req = {i: {n: None for n in names} for i in idx}

                def call(ow=None):
                    return st['sim'].delete_property(*names)
            out = run.call(op['op'], call, op)
            for f in out.fired:
                run.probe('%s at %s in %s' % (f['kind'], f['point'], op['op']))
            run.state(op['op'], names, allowed, out.ok, [f['kind'] for f in out.fired], cfg['init'], [sorted(disk[i]) for i in idx])
            if out.ok:
                run.check(allowed, 'not-refused', lambda: '%s of %s was done although it must be refused' % (op['op'], names))
                for i in idx:
                    for n in names:
                        st['mem'][i].pop(n, None)
                look(names, lambda i, n: [req[i][n]], why)
                continue
            if not out.fired:
                run.check(not must, 'fails', lambda: '%s of %s fails: %r\n%s' % (op['op'], names, out.exc, w.last_tb))
                look([], None, why + ' (refused)')
                continue
            # stopped part-way
            if allowed:
                look(names, lambda i, n: [before[i].get(n), req[i][n], None], why + ' (stopped: %s)' % out.brief())
            else:
                look([], None, why + ' (stopped)')
            if out.status == 'killed' or op['retry'] != 'same':
                run.expect_ok(g.s.start(), 'session-start', 'a new session')
                opened()
                look([], None, why + ', new session')
            if allowed and op['retry']:
                gone = op['op'] == 'delete' and any(all(n not in disk[i] for i in idx) for n in names)
                out = w.op('repeat', lambda: call(True))
                if gone and not out.ok:
                    run.check(isinstance(out.exc, ValueError), 'repeat-fails', lambda: 'repeating %s: %r' % (op['op'], out.exc))
                    look(names, lambda i, n: [disk[i].get(n), None], why + ', repeated')
                    left = [n for n in names if any(n in disk[i] for i in idx)]
                    if left:
                        out = w.op('repeat', lambda: st['sim'].delete_property(*left))
                        run.expect_ok(out, 'repeat-fails', 'repeating the deletion of what is left')
                        look(names, lambda i, n: [None], why + ', repeated')
                else:
                    run.expect_ok(out, 'repeat-fails', 'repeating %s' % op['op'])
                    look(names, lambda i, n: [req[i][n]], why + ', repeated')
                for i in idx:
                    for n in names:
                        st['mem'][i].pop(n, None)
            elif cfg['init'] and op['retry'] == 'same' or cfg['init'] and not allowed:
                # what the stopped call left in memory is of no interest
                opened()


PROP = P13()
