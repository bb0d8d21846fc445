"""P18: every random result is a function of the generator the caller passes."""
import random

import numpy as np

from .. import core, synth
from . import hnd, lcs

SIM = {'sfr': 'sfr', 'mass': 'mass'}


def lines(rng, opts):
    return {'line': rng.choice(opts)}


# name -> (module, function, arguments, options, name of the width option or None, how scatter is turned off)
MODELS = {
    'behroozi sfr': ('sfr_behroozi13', 'sfr', ('redshift', 'mass'), lambda r: {'sigma_scatter': r.choice([0.1, 0.3])}, {'scatter': False}),
    'behroozi mass': ('sfr_behroozi13', 'stellarmass', ('redshift', 'mass'), lambda r: {'sigma_scatter': r.choice([0.1, 0.3])}, {'scatter': False}),
    'keating16': ('line_co', 'keating16', ('mass',), lambda r: {'sig_lco': r.choice([0.2, 0.4])}, {'scatter_lco': False}),
    'li16': ('line_co', 'li16', ('sfr',), lambda r: {'sig_lco': r.choice([0.2, 0.4])}, {'scatter_lco': False}),
    'pullen13': ('line_co', 'pullen13', ('mass', 'redshift', 'cosmo'), lambda r: {'sf_length': r.choice([0.1, 1.0])}, None),
    'lidz11': ('line_co', 'lidz11', ('mass',), lambda r: {'f_duty': r.choice([0.1, 0.5])}, None),
    'kamenetzky16': ('line_co', 'kamenetzky16', ('sfr',), lambda r: {'lines': r.choice([[1, 2, 3], [2, 5, 13], [4]]),
                                                                    'break_ulirgs': r.random() < 0.4}, {'scatter_lco': False}),
    'hcn_gao': ('line_densegas', 'hcn_gao', ('sfr',), lambda r: {}, {'scatter_lhcn': False}),
    'hcn_breysse': ('line_densegas', 'hcn_breysse', ('mass',), lambda r: {'f_duty': r.choice([0.1, 0.6])}, None),
    'delooze14': ('line_fir', 'delooze14', ('sfr',), lambda r: {'line': r.choice(['[CII]', '[OI]', '[OIII]']),
                                                                'set': r.choice([None, 'DGS', 'starbursts']),
                                                                'fix_scatter': r.choice([None, 0.2])}, {'scatter': False}),
    'uzgil14': ('line_fir', 'uzgil14', ('sfr',), lambda r: lines(r, ['[CII]', '[NII]', '[OI]']), {'scatter': False}),
    'spinoglio12': ('line_fir', 'spinoglio12', ('sfr',), lambda r: lines(r, ['[CII]', '[NII]', '[NeII]']), {'scatter': False}),
    'schaerer20': ('line_fir', 'schaerer20', ('sfr',), lambda r: {'set': r.choice([None, 'ALPINE-sed', 'high z-uvirx'])}, {'scatter': False}),
    'zhao13': ('line_fir', 'zhao13', ('sfr',), lambda r: {}, {'scatter': False}),
    'padmanabhan19': ('line_fir', 'padmanabhan19', ('mass', 'redshift'), lambda r: {'scatter': True, 'sig_scatter': 0.3}, {'scatter': False}),
    'yang22': ('line_fir_yang', 'yang22', ('mass', 'redshift'), lambda r: dict(lines(r, ['CII', 'CI1-0', 'CO1-0', 'CO3-2']),
                                                                            fduty=r.random() < 0.6, fix_scatter=r.choice([None, 0.2])), {'scatter': False}),
    'log10normal': ('log10normal', 'log10normal', ('x', 'dex'), lambda r: {'preserve_linear_mean': r.random() < 0.5}, None),
    'b17': ('sfr_bethermin17', 'bethermin17_base', ('m_stars', 'z'), lambda r: {'return_fracs': r.random() < 0.3}, None),
    'white_noise': ('noise', 'white_noise', ('Nsamples', 'dt'), lambda r: {'rms': r.choice([1, 2.5]), 'bias': r.choice([0, 3.0])}, None),
}
BUILTIN = ['prop_co_sled', 'prop_li_co', 'prop_lidz_co', 'prop_pullen_co', 'prop_keating_co', 'prop_gao_hcn', 'prop_breysse_hcn', 'prop_delooze_fir',
           'prop_uzgil_fir', 'prop_spinoglio_fir', 'prop_schaerer_cii', 'prop_yang_cii', 'prop_padmanabhan_cii', 'prop_zhao_nii', 'prop_behroozi_sfr',
           'prop_behroozi_mass']


class P18:
    def setup(self, env):
        lcs.fast_distances()

    def generate(self, rng, tier, i):
        cfg = hnd.gen_catalog(rng, lc=1)
        while max(cfg['spec']['counts']) < 4:
            cfg = hnd.gen_catalog(rng, lc=1)
        cfg.update(gens=[[rng.choice(['PCG64', 'PCG64', 'MT19937', 'Philox', 'SFC64']), rng.getrandbits(30)] for _ in range(rng.choice([1, 2, 3]))],
                   order=rng.getrandbits(30))
        ops = []
        if i % 16 == 5:
            # light-cone builds among other consumers
            spec, geo = lcs.some_cone(rng)
            cfg = {'spec': spec, 'geo': geo, 'dseed': rng.getrandbits(31), 'gens': cfg['gens'], 'order': cfg['order']}
        names = rng.sample(sorted(MODELS), rng.choice([2, 3, 5]))
        for k in range(rng.randint(4, 12)):
            kind = rng.choice(['model'] * 7 + ['noise', 'noise', 'noise', 'snap', 'sim', 'session'])
            if 'geo' in cfg:
                if k > 6:
                    break
                kind = rng.choice(['model', 'noise', 'noise', 'build', 'build', 'build'])
            o = {'op': kind, 'g': rng.randrange(len(cfg['gens'])), 'dseed': rng.choice([1, 2, 3]), 'n': rng.choice([1, 5, 40, 40, 200])}
            if kind == 'model':
                m = rng.choice(names)
                o.update(m=m, kw=MODELS[m][3](rng), scalar_z=rng.random() < 0.3, off=rng.random() < 0.1)
            elif kind == 'noise':
                o.update(what=rng.choice(['numpy', 'python', 'default', 'other', 'new']), seed=rng.getrandbits(20), m=rng.choice(sorted(MODELS)))
            elif kind == 'build':
                o['n'] = rng.choice([1, 2, 3])
            elif kind in ('snap', 'sim'):
                o.update(p=rng.choice(BUILTIN), cone=rng.random() < 0.4, again=rng.random() < 0.5)
            ops.append(o)
        return {'config': cfg, 'ops': ops}

    def execute(self, run):
        w, cfg = run.w, run.cfg
        g = lcs.LcGround(run, cfg) if 'geo' in cfg else hnd.Ground(run, cfg, cones=1)
        spec = cfg['spec']
        from astropy.cosmology import FlatLambdaCDM
        cosmo = FlatLambdaCDM(H0=70, Om0=0.3)
        gens = [np.random.Generator(getattr(np.random, b)(s)) for b, s in cfg['gens']]
        done = []

        def values(op):
            r = np.random.RandomState(op['dseed'])
            n = op['n']
            d = {'mass': 10**r.uniform(10, 14, n), 'sfr': 10**r.uniform(-1, 3, n), 'redshift': r.uniform(0.05, 6, n), 'cosmo': cosmo,
                 'x': 10**r.uniform(0, 4, n), 'dex': 0.3, 'm_stars': 10**r.uniform(8, 11.5, n), 'z': r.uniform(0.05, 4, n),
                 'Nsamples': n, 'dt': 0.25}
            if op.get('scalar_z') and op.get('m') != 'yang22':   # refuses scalars
                d['redshift'] = 2.0
            return d

        def call(op, gen, off=False):
            """One model call, as a user would write it."""
            mod, fn, args, _, offkw = MODELS[op['m']]
            d = values(op)
            kw = dict(op['kw'])
            if off or op.get('off'):
                kw.update(offkw or {})
            if gen is not None:
                kw['rng'] = gen
            if mod == 'noise':
                f = w.mod('simim.instrument.noise_functions').white_noise
            else:
                f = getattr(w.mod('simim.galprops.' + mod), fn)
            if op['m'] == 'b17':
                return f(spec['sim']).b17_sfr(d['m_stars'], d['z'], **kw)
            return f(*[d[a] for a in args], **kw)

        def handler(op, gen):
            prop = getattr(w.mod('simim.galprops'), op['p'])
            names = ['r%d' % k for k in range(len(prop.names))]
            if op['op'] == 'sim' and min(spec['counts']) > 0:
                sh = w.mod('simim.siminterface').SimHandler(spec['sim'], init_snaps=True)
                sh.make_property(prop, rename=names, other_kws={'rng': gen}, kw_remap={'sfr': 'mass'})
                return [sh.get_snap(i).return_property(x) for i in synth.indices(spec) for x in names]
            if op['cone']:
                hd = w.mod('simim.lightcone').LCHandler(spec['sim'], g.set, 0)
            if not op['cone'] or hd.nhalos_all == 0:   # some models refuse empty inputs
                i = synth.indices(spec)[int(np.argmax(spec['counts']))]
                hd = w.mod('simim.siminterface').SimHandler(spec['sim']).get_snap(i)
            out = []
            for _ in range(1 + op['again']):
                hd.make_property(prop, rename=names, other_kws={'rng': gen}, kw_remap={'sfr': 'mass'}, overwrite=True)
                out += [hd.return_property(x) for x in names]
            return out

        def build(op, gen):
            made[0] += 1
            name = 'set%d' % made[0]
            g.maker(name, cfg['geo']).build_lightcones(op['n'], rng=gen)
            out = []
            for j in range(op['n']):
                d = lcs.content(w, g.file(name, j))
                pointings.setdefault(str(d['/'].get('start position')), set()).add((made[1], j))
                out.append(np.frombuffer(repr(sorted(d.items())).encode(), 'u1'))
            return out

        made, pointings = [0, None], {}
        todo = {'model': call, 'snap': handler, 'sim': handler, 'build': build}

        def state(x):
            return core._val(np.frombuffer(repr(x.bit_generator.state).encode(), 'u1')) if hasattr(x, 'bit_generator') else repr(x)

        def surroundings(but=None):
            s = np.random.get_state()
            out = [('numpy.random', core._val(s[1]), s[2:]), ('random', hash(random.getstate()))]
            out += [('another generator of the caller', k, state(x)) for k, x in enumerate(gens) if x is not but]
            out += [('a generator of the package', k, state(x)) for k, x in enumerate(w.generators) if x is not but]
            return out

        def flat(v):
            if isinstance(v, (list, tuple)):
                return [np.array(x) for x in v]
            return [np.array(v)]

        def spread(op, vals):
            """The normalised draws behind a result, one vector per independent result."""
            offkw = MODELS[op['m']][4] if op['op'] == 'model' else None
            if op['op'] == 'model' and op['m'] == 'white_noise':
                return [v for v in vals if len(v) >= 5]
            if offkw is None or op.get('off') or op['n'] < 5:
                return []
            base = flat(call(op, np.random.Generator(np.random.PCG64(0)), off=True)) if op['m'] != 'yang22' else \
                flat(call(dict(op, kw=dict(op['kw'], fduty=False)), np.random.Generator(np.random.PCG64(0)), off=True))
            out = []
            for v, b in zip(vals, base):
                ok = (v > 0) & (b > 0)
                if np.count_nonzero(ok) == len(v):
                    z = np.log10(v / b)
                    run.check(np.std(z) > 1e-6, 'no-scatter', '%s: no scatter was applied' % op['m'])
                    out.append(z)
            return out

        draws = []
        for k, op in run.steps():
            run.points[k] = []
            gen = gens[op['g']]
            if op['op'] == 'session':
                run.expect_ok(g.s.start(), 'session-start', 'a new session')
                del w.generators[:-60]
                continue
            if op['op'] == 'noise':
                if op['what'] == 'numpy':
                    np.random.seed(op['seed'])
                    np.random.random(op['n'])
                elif op['what'] == 'python':
                    random.seed(op['seed'])
                elif op['what'] == 'other':
                    gens[(op['g'] + 1) % len(gens)].random(op['n'])
                elif op['what'] == 'new':
                    np.random.default_rng().random(3)
                else:
                    o = dict(op, kw={}, off=False)
                    if op['m'] == 'padmanabhan19':
                        o['kw'] = {'scatter': True, 'sig_scatter': 0.3}
                    run.expect_ok(w.op('without a generator', lambda: call(o, None)), 'fails', '%s without a generator' % op['m'])
                continue
            before = gen.bit_generator.state
            around = surroundings(gen)
            box = {}

            def go():
                # the seam reseeds the global generators when an operation starts
                box['around'] = surroundings(gen)
                v = todo[op['op']](op, gen)
                box['after'] = surroundings(gen)
                return v
            made[1] = k
            what = '%s(%s)' % (op['m'], op['kw']) if op['op'] == 'model' else '%d light cones (%s)' % (op['n'], cfg['geo']) if op['op'] == 'build' else '%s of a %s' % (op['p'], 'simulation' if op['op'] == 'sim' else 'handler')
            vals = flat(run.expect_ok(w.op('draw', go), 'fails', what))
            a, b = box['around'], box['after'][:len(box['around'])]
            run.check(a == b, 'others', lambda: '%s changes the state of %s' % (what, [x[0] for x, y in zip(a, b) if x != y][:2]))
            done.append((k, op, before, vals, gen.bit_generator.state, what))
            if op['op'] == 'model':
                with core.seams_off(w):
                    draws += [(k, op['g'], z, what) for z in spread(op, vals)]
            run.probe(op.get('m') or op.get('p') or 'build')
            run.probe('draws')
        for v in pointings.values():
            run.check(len(v) == 1, 'reused', lambda: 'light cones %s start at the same place' % sorted(v))
        # independent results come from different draws
        for x in range(len(draws)):
            for y in range(x):
                a, b = draws[x][2], draws[y][2]
                n = min(len(a), len(b))
                a, b = a[:n] - np.mean(a[:n]), b[:n] - np.mean(b[:n])
                c = float(np.sum(a * b) / np.sqrt(np.sum(a * a) * np.sum(b * b)))
                run.check(abs(c) < 0.999999, 'reused', lambda: 'the draws behind %s and %s are the same' % (draws[x][3], draws[y][3]))
        # each call alone, in another session and another order, from the same generator state
        order = list(range(len(done)))
        random.Random(cfg['order']).shuffle(order)
        run.expect_ok(g.s.start(), 'session-start', 'a new session')
        for q in order:
            k, op, before, vals, after, what = done[q]
            made[1] = k
            gen = np.random.Generator(type(gens[op['g']].bit_generator)())
            gen.bit_generator.state = before
            out = w.op('alone', lambda: todo[op['op']](op, gen))
            got = flat(run.expect_ok(out, 'fails', what + ' alone'))
            ok = len(got) == len(vals) and all(a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f') for a, b in zip(got, vals))
            run.check(ok, 'differs', lambda: '%s from the same generator state gives %s and %s' % (
                what, [v.ravel()[:4] for v in vals][:2], [v.ravel()[:4] for v in got][:2]))
            run.check(repr(gen.bit_generator.state) == repr(after), 'differs', '%s leaves the same generator in different states' % what)
        run.state(sorted({x[1].get('m') or x[1].get('p') or 'build' for x in done}), len(gens), [o['what'] for o in run.plan['ops'] if o['op'] == 'noise'])


PROP = P18()
