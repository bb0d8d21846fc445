"""P11: saved properties survive other sessions and failed writes."""
import numpy as np

from .. import core, synth
from . import hnd

KINDS = ('interrupt', 'eio', 'enospc', 'memerr', 'kill')


class P11:
    def generate(self, rng, tier, i):
        cfg = hnd.gen_catalog(rng)
        cfg['opener'] = rng.choice(['sim', 'direct'])
        names = hnd.NAMES[:3]
        ops = []
        for k in range(rng.randint(4, 12)):
            kind = rng.choice(['make', 'make', 'make', 'write', 'write', 'write', 'mw', 'mw', 'delete', 'delete', 'reopen'])
            o = {'op': kind, 'who': rng.choice('AB')}
            if kind in ('make', 'mw'):
                p = hnd.gen_prop(rng, None, args=['mass', 'pos_x', 'halo_id'], multi=0.3, fail=0)
                p['names'] = rng.sample(names + ['p3'], len(p['names']))
                o['p'] = p
            if kind in ('write', 'mw'):
                o['overwrite'] = rng.random() < 0.55
                o['dtype'] = rng.choice([None, None, 'f4'])
                o['unload'] = rng.random() < 0.3
            if kind == 'write':
                o['names'] = [rng.choice(names)] if rng.random() < 0.75 else rng.sample(names, 2)
            if kind == 'delete':
                o['names'] = [rng.choice(names + ['old_p'])] if rng.random() < 0.75 else rng.sample(names, 2)
            if kind in ('write', 'mw', 'delete'):
                o['retry'] = rng.random() < 0.8
                if rng.random() < 0.65:
                    o['want'] = {'kinds': KINDS, 'points': ('h5.', 'file.') if rng.random() < 0.9 else None, 'n': rng.choice([1, 1, 1, 2])}
            ops.append(o)
        return {'config': cfg, 'ops': ops}

    def execute(self, run):
        w, cfg = run.w, run.cfg
        g = hnd.Ground(run, cones=2 if cfg['kind'] == 'lc' else 0)
        spec = cfg['spec']
        if cfg['kind'] == 'snap':
            i = synth.indices(spec)[cfg['snap']]
            fn, group, props = g.simfile, 'Snapshot %d' % i, g.props[i]
        else:
            j = cfg['snap'] % len(g.cones)
            fn, group, props = g.lc_file(j), 'Lightcone Full', g.cones[j]
        n = len(props['mass'][0])
        disk = {k: (v[0], v[1], v[2]) for k, v in props.items()}
        simh = {}

        def opener():
            if cfg['kind'] == 'lc':
                return w.mod('simim.lightcone').LCHandler(spec['sim'], g.set, j)
            if 'h' not in simh:
                simh['h'] = w.mod('simim.siminterface').SimHandler(spec['sim'])
            if cfg['opener'] == 'direct':
                return w.mod('simim.siminterface').SnapHandler(fn, i, spec['zs'][cfg['snap']], simh['h'].cosmo, spec['box'])
            return simh['h'].get_snap(i)

        def opened(why):
            return run.expect_ok(w.op('open', opener), 'unreadable', 'opening the data in a new session (%s)' % why)
        H, mem = {}, {}
        for x in 'AB':
            H[x], mem[x] = opened('at the start'), {}

        def rest():
            d = core.h5_dump(fn)
            return {k: v for k, v in d.items() if not k.startswith(group + '/') or k == group + '/' or k.endswith('mass_cuts')}
        with core.seams_off(w):
            rest0 = rest()

        def look(concerned, allowed, why):
            """The file as a new session finds it; returns what the concerned properties are now."""
            got = hnd.read_group(w, fn, group)
            for k in set(got) | set(disk):
                if k in concerned:
                    continue
                run.check(k in got, 'lost', lambda: '%s: another property is gone: %s' % (why, k))
                run.check(k in disk, 'appeared', lambda: '%s: a property nobody asked for appeared: %s' % (why, k))
                run.check(hnd.same_value(got[k], disk[k]), 'damaged', lambda: '%s: another property changed: %s is %r, was %r' % (
                    why, k, got[k], disk[k]))
            for k in concerned:
                opts = allowed[k]
                ok = any((v is None and k not in got) or (v is not None and k in got and hnd.same_value(got[k], v)) for v in opts)
                run.check(ok, 'half-done', lambda: '%s: %s is %r; allowed were %r' % (why, k, got.get(k), opts))
            with core.seams_off(w):
                r = rest()
            run.check(r == rest0, 'damaged', lambda: '%s: something else in the file changed: %s' % (
                why, [x for x in set(r) | set(rest0) if r.get(x) != rest0.get(x)]))
            for k in concerned:
                if k in got:
                    disk[k] = got[k]
                else:
                    disk.pop(k, None)
            h = opened(why)
            run.check(set(h.extract_keys('saved')) == set(disk) and h.nhalos_all == n, 'unreadable',
                      lambda: '%s: a new session lists %s, on disk %s' % (why, sorted(h.extract_keys('saved')), sorted(disk)))
            for q, k in enumerate(sorted(disk)):
                if k in concerned or q % 3 == 0:
                    out = w.op('read', lambda: h.return_property(k, in_h_units=True))
                    v = run.expect_ok(out, 'unreadable', '%s: reading %s in a new session' % (why, k))
                    run.check(hnd.same_value((v, '', 0), (np.asarray(disk[k][0]).reshape(-1), '', 0)), 'damaged', lambda: '%s: %s reads %r' % (why, k, v))

        def cast(x, dt):
            v, un, h = x
            return (v if dt is None else v.astype(dt), un, h)

        for k, op in run.steps():
            who = op['who']
            hd, me = H[who], mem[who]
            why = 'after %s by %s' % (op['op'], who)
            if op['op'] == 'reopen':
                run.points[k] = []
                if k % 2:
                    run.expect_ok(g.s.start(), 'session-start', 'a new session')
                    simh.clear()
                H[who], mem[who] = opened(why), {}
                continue
            names = op.get('names')
            if op['op'] in ('make', 'mw'):
                names = op['p']['names']
                prop = hnd.make_prop(w, op['p'])
                if any(a not in hd.properties_all for a in op['p']['args']):
                    run.points[k] = []
                    continue
                out = w.op('make', lambda: hd.make_property(prop, overwrite=True))
                run.expect_ok(out, 'make', 'making a property in memory')
                for x in names:
                    v = run.expect_ok(w.op('read', lambda: hd.return_property(x, use_all_inds=True, in_h_units=True)), 'make', 'reading it')
                    me[x] = (np.array(v), hd.properties_units[x], hd.properties_h_dependence[x])
                if op['op'] == 'make':
                    run.points[k] = []
                    continue
            before = {x: disk.get(x) for x in names}
            # -- the faultable call
            if op['op'] in ('write', 'mw'):
                names = [x for x in names if x in me]
                if not names:
                    run.points[k] = []
                    continue
                dt = op['dtype'] if all(me[x][0].dtype.kind == 'f' for x in names) else None
                req = {x: cast(me[x], dt) for x in names}
                ow = op['overwrite']
                if op['op'] == 'mw':
                    call = lambda ow=ow: hd.make_property(prop, overwrite=True, write_to_disk=True, overwrite_to_disk=ow, dtype_to_disk=dt,  # noqa
                                                          unload_to_disk=op['unload'])
                else:
                    call = lambda ow=ow: hd.write_property(*names, overwrite=ow, dtype=dt)  # noqa
                stale = any((x in hd.properties_saved) != (x in disk) for x in names)
            else:
                req = {x: None for x in names}
                call = lambda ow=None: hd.delete_property(*names)  # noqa
                stale = True
                ow = None
            known = {x: x in hd.properties_saved for x in names}
            out = run.call(op['op'], call, op)
            for f in out.fired:
                run.probe('%s at %s in %s' % (f['kind'], f['point'], op['op']))
            if out.ok:
                if ow is False:
                    run.check(all(before[x] is None for x in names), 'replaced',
                              lambda: '%s without asking for it, a property on disk was replaced (%s)' % (why, names))
                look(names, {x: [req[x]] for x in names}, why)
            elif not out.fired:
                # refused
                if ow is True:
                    run.fail('fails', '%s with overwriting allowed fails: %r\n%s' % (why, out.exc, w.last_tb))
                if ow is False:
                    run.check(any(before[x] is not None or known[x] for x in names), 'fails', lambda: '%s fails: %r\n%s' % (why, out.exc, w.last_tb))
                    # those before the first one in the way may have been written
                    look(names, {x: [before[x]] + ([req[x]] if before[x] is None and not known[x] else []) for x in names}, why)
                if ow is None:
                    run.check(any(before[x] is None or not known[x] for x in names), 'fails', lambda: '%s fails: %r\n%s' % (why, out.exc, w.last_tb))
                    look(names, {x: [before[x], None] for x in names}, why)
            else:
                if ow is False:
                    look(names, {x: [before[x]] if before[x] is not None else [None, req[x]] for x in names}, why)
                else:
                    look(names, {x: [before[x], req[x], None] for x in names}, why + ' (%s)' % out.brief())
            run.state(op['op'], who, ow, out.ok, [f['kind'] for f in out.fired], sorted(disk), sorted(me))
            if out.status == 'killed':
                run.expect_ok(g.s.start(), 'session-start', 'a new session')
                simh.clear()
                H[who], mem[who] = opened(why), {}
                continue
            if op['op'] in ('write', 'mw') and not out.ok:
                # what was not written must not be lost to the session that holds it
                written = all(x in disk and hnd.same_value(disk[x], req[x]) for x in names)
                for x in names:
                    if op['op'] == 'mw' and op['unload'] and written and not hd.has_loaded(x):
                        continue                      # stopped while unloading
                    run.check(hd.has_loaded(x), 'lost', lambda: '%s (%s): %s is no longer in memory' % (why, out.brief(), x))
                    v = run.expect_ok(w.op('read', lambda: hd.return_property(x, use_all_inds=True, in_h_units=True)), 'lost', 'reading %s, %s' % (x, why))
                    run.check(hnd.same_value((v, '', 0), (me[x][0], '', 0)), 'lost', lambda: '%s: %s in memory is changed: %r' % (why, x, v))
            if out.ok or not out.fired:
                if op['op'] == 'delete':
                    for x in names:
                        if out.ok:
                            me.pop(x, None)
                        elif not hd.has_loaded(x):
                            me.pop(x, None)
                if op['op'] == 'mw' and op['unload'] and out.ok:
                    for x in names:
                        me.pop(x, None)
                continue
            # -- faults have stopped: repeat, overwriting allowed
            if op['retry']:
                now = {x: disk.get(x) for x in names}
                out = w.op('repeat', (lambda: call(True)) if ow is not None else call)
                if ow is not None:
                    run.expect_ok(out, 'repeat-fails', '%s: repeating it with overwriting allowed' % why)
                    look(names, {x: [req[x]] for x in names}, why + ', repeated')
                elif out.ok:
                    look(names, {x: [None] for x in names}, why + ', repeated')
                else:
                    gone = [x for x in names if now[x] is None or not known[x]]
                    run.check(gone and isinstance(out.exc, ValueError), 'repeat-fails',
                              lambda: '%s: repeating the deletion fails: %r\n%s' % (why, out.exc, w.last_tb))
                    look(names, {x: [now[x], None] for x in names}, why + ', repeated')
            for x in list(me):
                if not hd.has_loaded(x):
                    me.pop(x)


PROP = P11()
