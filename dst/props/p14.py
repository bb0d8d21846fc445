"""P14: light-cone builds are all-or-nothing and repeatable from their seed."""
import os

import numpy as np

from .. import core
from . import lcs

KINDS = ('interrupt', 'eio', 'enospc', 'memerr', 'kill')
POINTING = ('start position', 'box flips', 'line of sight vector', 'position angle')


class P14:
    def setup(self, env):
        lcs.fast_distances()

    def generate(self, rng, tier, i):
        spec, geo = lcs.some_cone(rng)
        cfg = {'spec': spec, 'geo': geo, 'dseed': rng.getrandbits(31)}
        seeds = [rng.getrandbits(30) for _ in range(2)]
        ops = []
        for k in range(rng.choice([1, 2, 2, 3])):
            o = {'op': 'build', 'n': rng.choice([1, 1, 2, 3]), 'seed': rng.choice(seeds), 'set': rng.choice(['A', 'A', 'B']),
                 'noise': rng.getrandbits(16), 'retry': rng.choice(['same', 'same', 'new', None]), 'maker': rng.random() < 0.5,
                 'bits': rng.choice(['PCG64', 'PCG64', 'MT19937', 'Philox'])}
            if rng.random() < 0.85:
                o['want'] = {'kinds': KINDS, 'points': ('h5.',) if rng.random() < 0.9 else None}
            ops.append(o)
            if rng.random() < 0.25:
                ops.append({'op': 'session'})
        return {'config': cfg, 'ops': ops}

    def execute(self, run):
        w, cfg = run.w, run.cfg
        g = lcs.LcGround(run, cfg)
        spec, geo = cfg['spec'], cfg['geo']
        refs = {}                       # (seed, bits, n) -> contents
        have = {}                       # set -> {number: content of the finished cone in it}

        def gen(op):
            return np.random.Generator(getattr(np.random, op['bits'])(op['seed']))

        def cone(fn):
            d = lcs.content(w, fn)
            return d

        def reference(op):
            key = (op['seed'], op['bits'], op['n'])
            if key not in refs:
                name = 'ref%d' % len(refs)
                out = w.op('reference', lambda: g.maker(name, geo).build_lightcones(op['n'], rng=gen(op)))
                run.expect_ok(out, 'fails', 'building %d light cones (%s)' % (op['n'], geo))
                refs[key] = [cone(g.file(name, j)) for j in range(op['n'])]
                for j, d in enumerate(refs[key]):
                    run.check(d['/']['status_basic'] == core._val(np.bool_(True)), 'unfinished', 'a completed build is not marked finished')
                p = [[str(d['/'].get(x)) for x in POINTING] for d in refs[key]]
                run.check(all(p[a][0] != p[b][0] for a in range(len(p)) for b in range(a)), 'pointings', 'two light cones of a set start at the same place')
                if 'line of sight vector' in refs[key][0]['/']:
                    run.check(all(p[a][2] != p[b][2] for a in range(len(p)) for b in range(a)), 'pointings', 'two light cones of a set have the same line of sight')
                for other, r in refs.items():
                    if other[0] != key[0]:
                        run.check(all(str(r[a]['/']['start position']) != p[b][0] for a in range(len(r)) for b in range(len(p))),
                                  'pointings', 'different seeds gave the same starting position')
            return refs[key]

        def strip(d, finished):
            # between the last steps of a build a cone is complete but not yet marked as such
            d = dict(d)
            if not finished:
                d['/'] = {k: v for k, v in d['/'].items() if k != 'status_basic'}
            return d

        def inspect(name, want, after):
            """Every file that opens as a light cone is a complete one.  Returns how many are."""
            old = have.setdefault(name, {})
            here = {}
            d = os.path.join(g.lcdir, name)
            with core.seams_off(w):
                files = sorted(os.listdir(d)) if os.path.isdir(d) else []
            for f in files:
                run.check(len(f) == 12 and f.startswith('lc_') and f.endswith('.hdf5'), 'litter', 'file %s in the set' % f)
                j = int(f[3:7])
                fn = os.path.join(d, f)
                try:
                    a, grp, ix = lcs.read_cone(w, fn)
                    c = cone(fn)
                except Exception:
                    a = None
                out = w.op('open', lambda: w.mod('simim.lightcone').LCHandler(spec['sim'], name, j, in_h_units=True))
                if a is None:
                    run.check(not out.ok, 'opens', 'an unreadable file is opened as a light cone')
                    continue
                finished = 'finished' in a and not (isinstance(a['finished'], (bool, np.bool_)) and not a['finished'])
                claims = finished or bool(a.get('status_basic'))
                if not claims and not out.ok:
                    continue
                ok = [x for x in ([want[j]] if want and j < len(want) else []) + ([old[j]] if j in old else [])
                      if strip(x, claims) == strip(c, claims)]
                run.check(ok, 'incomplete', lambda: 'after %s light cone %d %s but is not the one the seed calls for: %s' % (
                    after, j, 'reports itself finished' if claims else 'opens', differences(want[j] if want and j < len(want) else old.get(j), c)))
                if claims:
                    run.check(out.ok, 'unreadable', lambda: 'a finished light cone does not open: %r' % out.exc)
                here[j] = ok[0]
            # numbers the call does not concern
            for j in old:
                if not want or j >= len(want):
                    run.check(j in here and here[j] == old[j], 'lost', 'light cone %d, which the call did not concern, is gone' % j)
            have[name] = here
            return here

        for k, op in run.steps():
            if op['op'] == 'session':
                run.points[k] = []
                run.expect_ok(g.s.start(), 'session-start', 'a new session')
                continue
            want = reference(op)
            np.random.seed(op['noise'])
            np.random.random(op['noise'] % 7)
            mk = {}

            def noise():
                # other random consumers
                np.random.random(3)
                np.random.default_rng(op['noise']).random(5)

            def attempt():
                if 'mk' not in mk or op['maker']:
                    mk['mk'] = g.maker(op['set'], geo)
                noise()
                mk['mk'].build_lightcones(op['n'], rng=gen(op))
            out = run.call('build', attempt, op)
            here = inspect(op['set'], want, 'a build that %s' % ('finished' if out.ok else 'was stopped (%s)' % (out.fired or out.exc)))
            for f in out.fired:
                run.probe('%s at %s' % (f['kind'], f['point']))
            done = [j for j in range(op['n']) if j in here and here[j] == want[j]]
            if out.ok:
                run.check(len(done) == op['n'], 'unfinished', 'a build that returned left light cones unfinished')
            else:
                run.check(out.fired, 'fails', lambda: 'building fails: %r\n%s' % (out.exc, getattr(w, 'last_tb', '')))
                run.probe('finished cones after a stop: %d of %d' % (len(done), op['n']))
                if out.status == 'killed' or op['retry'] == 'new':
                    run.expect_ok(g.s.start(), 'session-start', 'a new session')
                    mk.clear()
                if op['retry']:
                    o2 = w.op('rebuild', attempt)
                    run.expect_ok(o2, 'retry', 'building again after a stop')
                    here = inspect(op['set'], want, 'building again')
                    run.check(all(here.get(j) == want[j] for j in range(op['n'])), 'retry', 'building again left light cones unfinished')
            run.state(geo['mode'], op['n'], out.status, len(done), len(here), [f['point'] for f in out.fired], op['retry'])
            run.probe('builds')


def differences(a, b):
    if a is None:
        return 'none was asked for'
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append(k if not isinstance(a.get(k), dict) or not isinstance(b.get(k), dict) else
                       '%s %s' % (k, sorted(x for x in set(a[k]) | set(b[k]) if a[k].get(x) != b[k].get(x))))
    return out[:8]


PROP = P14()
