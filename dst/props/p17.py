"""P17: properties added to light cones come from the right halo, even after retries."""
import warnings

import numpy as np

from .. import core, synth
from . import hnd, lcs

KINDS = ('interrupt', 'eio', 'enospc', 'memerr', 'kill')
SCALARS = ['halo_id', 'score', 'inv', 'r_hm', 'masscheck', 'score', 'halo_id', 'old_p', 'absent', 'v_x', 'mass', 'ra',
           'v_y', 'cm_x', 'cm_z', 'spin_y', 'pos_z', 'spin_x']
# components that depend on how the box is turned and mirrored: not to be added one by one as they are
PLACED = [v + s for v in ('v', 'cm', 'spin') for s in ('_x', '_y', '_z')]
VECTORS = ['v', 'cm', 'v', 'cm', 'pos', 'spin', 'absent']


class P17:
    def setup(self, env):
        lcs.fast_distances()

    def generate(self, rng, tier, i):
        spec, geo = lcs.some_cone(rng)
        cfg = {'spec': spec, 'geo': geo, 'dseed': rng.getrandbits(31), 'n': rng.choice([1, 1, 2, 3]), 'seed': rng.getrandbits(30),
               'mm': rng.choice([None, None, rng.random()]), 'lose': rng.choice([None] * 6 + ['inv', 'score'])}
        ops = []
        for k in range(rng.randint(1, 4)):
            kind = rng.choice(['scalar', 'scalar', 'vector', 'vector', 'user'])
            pool = SCALARS if kind == 'scalar' else VECTORS
            o = {'op': kind, 'keys': [rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3]))],
                 'retry': rng.choice(['same', 'same', 'other', None]), 'other': rng.choice(SCALARS[:6])}
            if kind != 'user' and rng.random() < 0.7:
                o['want'] = {'kinds': KINDS, 'points': ('h5.',) if rng.random() < 0.9 else None}
            ops.append(o)
        return {'config': cfg, 'ops': ops}

    def execute(self, run):
        w, cfg = run.w, run.cfg
        g = lcs.LcGround(run, cfg)
        spec, geo, n = cfg['spec'], cfg['geo'], cfg['n']
        masses = np.concatenate([p['mass'][0] for p in g.props.values()])
        minmass = float(np.sort(masses)[int(cfg['mm'] * len(masses))]) if cfg['mm'] is not None else 0
        box = {}

        def build():
            box['mk'] = g.maker('A', geo, minmass=minmass)
            box['mk'].build_lightcones(n, rng=np.random.default_rng(cfg['seed']))
        run.expect_ok(w.op('build', build), 'fails', 'building (%s)' % geo)
        base = [lcs.content(w, g.file('A', j)) for j in range(n)]
        raw = [lcs.read_cone(w, g.file('A', j)) for j in range(n)]
        avail = {k for k in next(iter(g.props.values()))}
        added = [dict() for _ in range(n)]             # per cone: {key: (values, units, h dependence)} in place
        extra = [dict() for _ in range(n)]             # properties the user put there

        def parents(j, key):
            si = raw[j][2]['sim_indices']
            src = 'mass' if key == 'masscheck' else key
            vals, un, hd, _ = next(iter(g.props.values()))[src]
            out = np.zeros(len(si), dtype=np.asarray(vals).dtype)
            for i in g.props:
                m = si['snap'] == i
                out[m] = np.asarray(g.props[i][src][0])[si['index'][m]]
            return out, un, hd

        def vector(j, key):
            a = raw[j][0]
            c = [parents(j, key + s) for s in ('_x', '_y', '_z')]
            V = np.array([x[0] for x in c], dtype='f8') * np.asarray(a['box flips'])[:, None]
            if 'line of sight vector' in a:
                V = (lcs.frame(a) @ V)[[1, 2, 0]]
            return {key + s: (V[q], c[q][1], c[q][2]) for q, s in enumerate(('_x', '_y', '_z'))}

        def wanted(op, keys):
            """What a call must add to every cone (keys that all of them lack)."""
            there = set.intersection(*[set(raw[j][1]['Lightcone Full']) | set(added[j]) | set(extra[j]) for j in range(n)])
            out = [dict() for _ in range(n)]
            for key in keys:
                for j in range(n):
                    if op == 'scalar':
                        if key in PLACED or key in there or key not in avail | {'masscheck'}:
                            continue
                        if key not in extra[j]:
                            out[j][key] = parents(j, key)
                    elif key + '_x' in avail and not all(key + s in there for s in ('_x', '_y', '_z')):
                        out[j].update({k: v for k, v in vector(j, key).items() if k not in extra[j]})
            return out

        def look(after, pending, must):
            """Compare every cone with what it should hold; pending may be there or not unless must."""
            done = 0
            flags, rests = [], []
            for j in range(n):
                fn = g.file('A', j)
                a, grp, ix = lcs.read_cone(w, fn)
                c = lcs.content(w, fn)
                full = grp['Lightcone Full']
                for k, v in base[j].items():
                    if k != '/':
                        run.check(c.get(k) == v, 'changed', lambda: 'after %s: %s of light cone %d, there before, is changed' % (after, k, j))
                for k, v in base[j]['/'].items():
                    if not k.startswith('status_extra'):
                        run.check(c['/'].get(k) == v, 'changed', lambda: 'after %s: attribute %s of light cone %d is changed' % (after, k, j))
                before = set(added[j])                # from earlier calls, say of one that was stopped half way
                known = dict(pending[j])
                known.update(added[j])
                known.update(extra[j])
                for k in full:
                    if k in raw[j][1]['Lightcone Full']:
                        continue
                    run.check(k in known, 'unasked', lambda: 'after %s: light cone %d has a property %s' % (after, j, k))
                    exact = k in extra[j] or k.rsplit('_', 1)[-1] not in 'xyz'
                    run.check(same(full[k], known[k], exact), 'values', lambda: 'after %s: %s of light cone %d is %s, its parents give %s' % (
                        after, k, j, brief(full[k]), brief(known[k])))
                    if k in pending[j]:
                        added[j][k] = known[k]
                        done += 1
                for k in list(added[j]) + list(extra[j]) + (list(pending[j]) if must else []):
                    run.check(k in full, 'missing', lambda: 'after %s: light cone %d lacks %s' % (after, j, k))
                rest = [k for k in pending[j] if k not in full]
                flags.append(bool(a.get('status_extra_completed', False)))
                rests.append((rest, [k for k in pending[j] if k in full and k not in before]))
                if flags[-1]:
                    run.check('Lightcone Extra' not in grp and not (rest and rests[-1][1]), 'completed',
                              'after %s: light cone %d reports its additions complete without %s' % (after, j, rest))
                if must:
                    run.check(bool(a.get('status_extra_completed', False)), 'completed', 'after %s: light cone %d does not report its additions complete' % (after, j))
                    run.check('Lightcone Extra' not in grp, 'leftover', 'after %s: unfinished additions are left in light cone %d' % (after, j))
            if any(r[0] for r in rests) and any(r[1] for r in rests):
                run.check(not all(flags), 'completed', 'after %s: the set reports its additions complete, light cones %s lack some' % (
                    after, [j for j in range(n) if rests[j][0]]))
            return done

        def user_made(op):
            """The user adds a property of their own to one cone, as the handler does."""
            j = op['other'].__len__() % n
            name = 'mine' if 'score' in op['keys'] or extra[j] else 'inv'
            if name in added[j] or name in extra[j]:
                return
            num = len(raw[j][2]['sim_indices'])
            x = np.arange(num) * 1.5 + 3

            def go():
                gp = w.mod('simim.galprops')
                lc = w.mod('simim.lightcone').LCHandler(spec['sim'], 'A', j, in_h_units=True)
                lc.make_property(gp.Prop(name, lambda mass: np.arange(len(mass)) * 1.5 + 3, ['mass'], units='me', h_dependence=1, give_args_in_h_units=True,
                                         function_return_in_h_units=True), write_to_disk=True)
            run.expect_ok(w.op('user property', go), 'user', 'writing a property to light cone %d' % j)
            extra[j][name] = (x, 'me', 1)

        for k, op in run.steps():
            if op['op'] == 'user':
                run.points[k] = []
                user_made(op)
                look('a property written by the user', [{}] * n, False)
                continue
            kind = op['op']
            todo = wanted(kind, op['keys'])
            meth = 'add_properties' if kind == 'scalar' else 'add_pos_properties'
            keys = list(op['keys'])

            def go(meth=meth, keys=keys):
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    getattr(box['mk'], meth)(*keys)
            out = run.call('add', go, op)
            for f in out.fired:
                run.probe('%s at %s' % (f['kind'], f['point']))
            what = '%s%r that %s' % (meth, tuple(keys), 'finished' if out.ok else 'was stopped (%s)' % (out.fired or out.exc))
            done = look(what, todo, out.ok)
            run.probe('properties added', done)
            if not out.ok:
                run.check(out.fired, 'fails', lambda: 'adding %s fails: %r\n%s' % (keys, out.exc, getattr(w, 'last_tb', '')))
                if out.status == 'killed':
                    run.expect_ok(g.s.start(), 'session-start', 'a new session')
                    break                                 # a new maker would make new light cones
                if op['retry'] == 'other':
                    t2 = wanted('scalar', [op['other']])
                    o2 = w.op('another', lambda: go('add_properties', [op['other']]))
                    run.expect_ok(o2, 'retry', 'adding %s after a stop' % op['other'])
                    # whatever of the stopped call is in place stays, nothing else of it appears
                    look('adding %s after a stop' % op['other'], t2, True)
                elif op['retry']:
                    todo = wanted(kind, keys)
                    o2 = w.op('repeat', go)
                    run.expect_ok(o2, 'retry', 'repeating the call')
                    look('repeating the call', todo, True)
            run.state(geo['mode'], n, kind, len(set(keys)), out.status, [f['point'] for f in out.fired], op['retry'], done)
        # a new session sees the same
        run.expect_ok(g.s.start(), 'session-start', 'a new session')
        for j in range(n):
            out = w.op('open', lambda: w.mod('simim.lightcone').LCHandler(spec['sim'], 'A', j, in_h_units=True))
            lc = run.expect_ok(out, 'unreadable', 'opening light cone %d' % j)
            for key, v in list(added[j].items()) + list(extra[j].items()):
                got = run.expect_ok(w.op('return', lambda: lc.return_property(key)), 'unreadable', 'reading %s' % key)
                exact = key in extra[j] or key.rsplit('_', 1)[-1] not in 'xyz'
                run.check(same((got, v[1], v[2]), v, exact), 'values', 'the handler returns %r for %s' % (got, key))


def brief(v):
    return '%s %r %r' % (np.asarray(v[0]).ravel()[:6], v[1], v[2])


def same(a, b, exact):
    x, y = np.asarray(a[0]).ravel(), np.asarray(b[0]).ravel()
    if x.shape != y.shape or a[1] != b[1] or float(a[2]) != float(b[2]):
        return False
    if exact:
        return bool(np.all((x == y) | ((x != x) & (y != y))))
    return bool(np.allclose(x, y, rtol=1e-5, atol=1e-5 * (np.max(np.abs(y)) if len(y) else 0) + 1e-12))


PROP = P17()
