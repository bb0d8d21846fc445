"""P21: an instrument never returns samples from stale or mismatched maps."""
import inspect
import json

import numpy as np

from . import common, hnd

NAMES = ['a', 'b', 'c', '0', '1', 'instrument', None, None]
FIELDS = ['f', 'g', '0', '1', None, None]
SP = ['gauss', 'gauss', 'spec-gauss', 'u0', 'u1', 'obj', 'bad']
SC = ['gauss', 'boxcar', 'u0', 'u1']
NO = ['none', 'white', 'ramp', 'ramp']


def gen_resp(rng, mode, none=0.35, bad=0.03):
    """[function, kwargs], either of which may be left to the instrument's default."""
    if mode == 'spatial':
        f = rng.choice(SP[:-1]) if rng.random() > bad else 'bad'
        kw = {'fwhmx': rng.choice([1., 1., 2.]), 'fwhmy': rng.choice([1., 1.5])}
        if rng.random() < 0.3:
            kw['cx'] = rng.choice([0., 0.4])
        if f == 'spec-gauss':
            kw['freq0'] = 100.
            if rng.random() < 0.3:
                kw['freq_exp'] = rng.choice([1, -0.5])
    elif mode == 'spectral':
        f = rng.choice(SC)
        kw = {'freq0': rng.choice([99., 100., 101.5]), 'A': rng.choice([1., 2.])}
        kw['width' if f == 'boxcar' else 'fwhm'] = rng.choice([1.5, 4.])
    else:
        f = rng.choice(NO)
        kw = {'none': {}, 'white': {'rms': 0., 'bias': rng.choice([0., 3.])}, 'ramp': {'a': rng.choice([1., 2.])}}[f]
    if rng.random() < none:
        f = None
    if rng.random() < (0.6 if f is None else 0.1):
        kw = None
    return [f, kw]


class P21:
    def generate(self, rng, tier, i):
        modes = ('spatial', 'spectral', 'noise')
        cfg = {'units': rng.random() < 0.5, 'best': rng.choice([None, 1., 1., 2.]), 'single': rng.random() < 0.12,
               'defaults': {m: gen_resp(rng, m, 0.15, 0) for m in modes}}
        if cfg['single']:
            cfg['defaults'] = {m: [f or d, kw if f else {}] for m, d in zip(modes, ('gauss', 'gauss', 'none'))
                               for f, kw in [cfg['defaults'][m]]}
            for m in modes:
                if cfg['defaults'][m][1] is None:
                    cfg['defaults'][m][1] = {}
        ops = []
        pool = {m: [gen_resp(rng, m, 0, 0) for _ in range(3)] for m in modes}
        # the same parameters for another function, other parameters for the same function
        pool['spatial'] += [['u0', pool['spatial'][0][1]], [pool['spatial'][0][0], dict(pool['spatial'][0][1] or {}, fwhmx=1.2)]]

        def resp(m, none=0.25):
            if rng.random() < 0.6:
                return json.loads(json.dumps(rng.choice(pool[m])))
            return gen_resp(rng, m, none)
        n = rng.randint(5, 16 if tier == 'quick' else 24)
        todo = ['add', 'add', 'field', 'field', 'map'] if rng.random() < 0.5 else ['add', 'field', 'map'] if rng.random() < 0.8 else []
        for k in range(n):
            if not todo and rng.random() < 0.25:
                # out of date, perhaps mapped in part, then sampled
                todo = [rng.choice(['set', 'add', 'del'])] + rng.choice([['add'], ['map'], ['map', 'sample'], ['delfield', 'field'], []]) + ['sample']
            kind = todo.pop(0) if todo else rng.choice(['add', 'add', 'set', 'set', 'del', 'field', 'delfield', 'map', 'map', 'map', 'sample', 'sample',
                                        'sample', 'edit'])
            o = {'op': kind, 'dseed': rng.getrandbits(24)}
            if kind == 'add':
                o.update(name=rng.choice(NAMES), off=rng.choice([None, None, [0.5, 0.], [0.5, 0.], [0.5, 0.7], [-0.3, 0.7]]), nominal=rng.random() < 0.85,
                         **{m: resp(m) for m in modes})
                if rng.random() < 0.05:
                    o['off'] = [1.]
                if rng.random() < 0.15:
                    o['broken'] = rng.choice(modes)
            elif kind == 'set':
                m = rng.choice(modes)
                o.update(mode=m, resp=resp(m, 0.05), dets=rng.choice(['all', 'some', 'some', 'one', 'unknown', 'twice']),
                         inst=rng.random() < 0.3, badkw=rng.random() < 0.05)
            elif kind == 'del':
                o.update(n=rng.choice([0, 1, 1, 1, 2, 5]), unknown=rng.random() < 0.1)
            elif kind == 'field':
                o.update(name=rng.choice(FIELDS), props=rng.choice([1, 1, 2, 3, 4]), prop=rng.choice([None, None, 0, 0, 0, 'last', 'last', 'last', 'last', 'over', 'over2', -1]),
                         in_place=rng.random() < 0.6, units=rng.choice(['match', 'match', 'match', 'match', 'none', 'wrong']), reuse=rng.random() < 0.25,
                         grown=rng.random() < 0.2)
            elif kind == 'delfield':
                o.update(n=rng.choice([0, 1, 1, 2]))
            elif kind == 'map':
                o.update(fields=rng.choice(['all', 'all', 'some', 'one']), norm=rng.choice([None, 'peak', 'area', 'none', 'none']),
                         beam=rng.choice(['kernel', 'kernel', 'default', 'default', 'grid', 'both']), pad=rng.choice([None, None, 0, 2]),
                         boom=rng.choice([None, None, None, None, 1, 2, 3, 4, 5, 7]))
                if rng.random() < 0.25:
                    o['want'] = {'kinds': ('interrupt', 'memerr'), 'points': ('user.fn',)}
            elif kind == 'sample':
                o.update(fields=rng.choice(['all', 'all', 'some', 'one']), signal=rng.random() < 0.9, noise=rng.random() < 0.5,
                         n=rng.choice([0, 1, 12, 40]), boom=rng.choice([None] * 6 + [1, 2]))
            if kind == 'add' and rng.random() < 0.3:
                o['boom'] = rng.choice([1, 1, 2, 5])
                o['nominal'] = False
            ops.append(o)
        ops.append({'op': 'sample', 'dseed': 1, 'fields': 'all', 'signal': True, 'noise': False, 'n': 40, 'boom': None})
        return {'config': cfg, 'ops': ops}

    def execute(self, run):
        w = run.w
        common.ready(run)
        cfg = run.plan['config']
        mi, mm = w.mod('simim.instrument'), w.mod('simim.map')
        boom = {'n': None}

        # what each function gives, by definition; not through the code under test
        def col(a, ax):
            return np.asarray(a, dtype=float).reshape([-1 if k == ax else 1 for k in range(3)])

        def r_gauss(x, y, f, fwhmx=1, fwhmy=1, cx=0, cy=0):
            r = np.exp(-4 * np.log(2) * ((col(x, 0) - cx)**2 / fwhmx**2 + (col(y, 1) - cy)**2 / fwhmy**2))
            return r * np.ones((1, 1, len(f)))

        def r_specgauss(x, y, f, freq0=100e9, fwhmx=1, fwhmy=1, cx=0, cy=0, freq_exp=-1):
            s = (freq0 / col(f, 2))**freq_exp
            return np.exp(-4 * np.log(2) * ((col(x, 0) - cx)**2 / (fwhmx * s)**2 + (col(y, 1) - cy)**2 / (fwhmy * s)**2))

        def r_u(q):
            def fn(x, y, f, fwhmx=1, fwhmy=1, cx=0, cy=0):
                return np.exp(-np.abs(col(x, 0) - cx) / fwhmx - q * np.abs(col(y, 1) - cy) / fwhmy) * (1 + q * (col(f, 2) - 98))
            return fn

        def r_bad(x, y, f, **kw):
            return np.ones((len(x), len(f), len(y) + 1))

        def s_gauss(f, A=1, freq0=100, fwhm=1):
            return A * np.exp(-4 * np.log(2) * ((np.asarray(f) - freq0)**2 / fwhm**2))

        def s_box(f, A=1, freq0=100, width=1):
            f = np.asarray(f)
            return np.where((f >= freq0 - width / 2) & (f <= freq0 + width / 2), A, 0.)

        def s_u(q):
            def fn(f, A=1, freq0=100, fwhm=1):
                return A * (1 + q * np.exp(-np.abs(np.asarray(f) - freq0) / fwhm))
            return fn

        def n_none(n, dt):
            return np.zeros(n)

        def n_white(n, dt, rms=0., bias=0.):
            return np.zeros(n) + bias

        def n_ramp(n, dt, a=1.):
            return a * dt * (1 + np.arange(n))
        REF = {('spatial', 'gauss'): r_gauss, ('spatial', 'spec-gauss'): r_specgauss, ('spatial', 'u0'): r_u(0.3), ('spatial', 'u1'): r_u(0.7),
               ('spatial', 'obj'): r_u(1.1), ('spatial', 'bad'): r_bad, ('spectral', 'gauss'): s_gauss, ('spectral', 'boxcar'): s_box,
               ('spectral', 'u0'): s_u(2.), ('spectral', 'u1'): s_u(5.), ('noise', 'none'): n_none, ('noise', 'white'): n_white,
               ('noise', 'ramp'): n_ramp}
        BUILTIN = {('spatial', 'gauss'), ('spatial', 'spec-gauss'), ('spectral', 'gauss'), ('spectral', 'boxcar'), ('noise', 'none'),
                   ('noise', 'white')}

        def user(mode, f):
            ref = REF[mode, f]

            def fn(*a, **kw):
                if boom['n'] is not None:
                    boom['n'] -= 1
                    if boom['n'] == 0:
                        boom['n'] = None
                        raise hnd.UserError('from the user')
                return w.point('user.fn', mode, lambda: ref(*a, **kw))
            if f == 'obj':
                class Response:
                    def __call__(self, *a, **kw):
                        return fn(*a, **kw)
                return Response()
            return fn
        GIVEN = {k: k[1] if k in BUILTIN else user(*k) for k in REF}
        FNAME = {'spatial': 'spatial_response', 'spectral': 'spectral_response', 'noise': 'noise_function'}

        def given(mode, resp):
            f, kw = resp
            return {FNAME[mode]: None if f is None else GIVEN[mode, f], mode + '_kwargs': None if kw is None else dict(kw)}

        def spoil(kw):
            """Callers may do what they like with the dictionaries they passed."""
            for v in kw.values():
                if isinstance(v, dict):
                    for k in list(v):
                        v[k] = 77.
                    v['left over'] = 1

        # the model
        D = []                      # detectors, in order
        F = {}                      # name -> field
        default = {m: (tuple(cfg['defaults'][m]) if not cfg['single'] else (None, None)) for m in FNAME}
        grids = []                  # grids the user holds: [grid]
        units = ('arcmin', 'GHz', 'Jy') if cfg['units'] else (None, None, None)
        ikw = dict(spatial_unit=units[0], spectral_unit=units[1], flux_unit=units[2])
        extra = {}
        if cfg['single']:
            for m in FNAME:
                extra.update(given(m, cfg['defaults'][m]))
            inst = run.expect_ok(w.op('make', lambda: mi.Detector(spatial_res=cfg['best'], nominal_frequency=100., **ikw, **extra)),
                                 'fails', 'making a detector')
            D.append(dict({m: (cfg['defaults'][m][0], cfg['defaults'][m][1]) for m in FNAME}, name='detector', off=(0, 0)))
        else:
            for m in FNAME:
                extra.update({'default_' + k: v for k, v in given(m, cfg['defaults'][m]).items()})
            inst = run.expect_ok(w.op('make', lambda: mi.Instrument(best_spatial_res=cfg['best'], **ikw, **extra)), 'fails', 'making an instrument')
        spoil(extra)

        def resolve(mode, resp):
            """The response a new detector gets, or None if none is determined."""
            f, kw = resp
            if f is not None:
                return f, kw or {}
            if default[mode][0] is None or (kw is None and default[mode][1] is None):
                return None
            return default[mode][0], default[mode][1] if kw is None else kw

        def usable(d, m):
            """Whether the function takes the arguments given for it."""
            f, kw = d[m]
            return f != 'bad' and set(kw) <= set(inspect.signature(REF[m, f]).parameters)

        def conv(a, b):
            """Direct two-dimensional convolution, the part as large as a."""
            n, m = a.shape, b.shape
            full = np.zeros((n[0] + m[0] - 1, n[1] + m[1] - 1))
            for i in range(m[0]):
                for j in range(m[1]):
                    full[i:i + n[0], j:j + n[1]] += b[i, j] * a
            return full[(m[0] - 1) // 2:][:n[0], (m[1] - 1) // 2:][:, :n[1]]

        memo = {}

        def themap(d, m):
            """The map of one detector, and how large its values may be."""
            key = (m['id'], d['spatial'][0], str(sorted(d['spatial'][1].items())), d['spectral'][0], str(sorted(d['spectral'][1].items())))
            if key in memo:
                return memo[key]
            pix, nz = m['pix'], m['a'].shape[2]
            if m['beam'] is not None:
                beam = m['beam']
            else:
                k = m['kernel'] if m['kernel'] is not None else [int(np.round(cfg['best'] / p)) * 10 + 1 for p in pix[:2]]
                ax = [(np.arange(n) + 0.5) * p - n * p / 2 for n, p in zip(k, pix)]
                beam = REF['spatial', d['spatial'][0]](ax[0], ax[1], m['z'], **d['spatial'][1])
                if m['norm'] == 'peak':
                    beam = beam / beam.max(axis=(0, 1))
                elif m['norm'] == 'area':
                    beam = beam / beam.sum(axis=(0, 1))
            wt = REF['spectral', d['spectral'][0]](m['z'], **d['spectral'][1])
            with np.errstate(all='ignore'):
                cube = np.stack([conv(m['a'][:, :, z], beam[:, :, z]) for z in range(nz)], axis=2)
                res = np.sum(cube * wt, axis=2) / np.sum(wt)
            size = np.abs(m['a']).max() * np.abs(beam).sum(axis=(0, 1)).max()
            memo[key] = res, size
            return res, size

        def signal(d, m, pos):
            """Samples of a detector, their tolerance and where they are well determined."""
            res, size = themap(d, m)
            x = (pos + np.array(d['off']) - m['centre'][:2] + np.array(m['a'].shape[:2]) * m['pix'][:2] / 2) / m['pix'][:2]
            sure = np.all(np.abs(x - np.round(x)) > 1e-6, axis=1)
            c = np.floor(x).astype(int)
            inside = np.all((c >= 0) & (c < m['a'].shape[:2]), axis=1)
            c[~inside] = 0
            v = res[c[:, 0], c[:, 1]]
            v = np.where(inside, v, np.nan)
            return v, 1e-9 * size, sure

        def pick(names, how, r):
            names = list(names)
            r.shuffle(names)
            return {'all': [], 'one': names[:1], 'some': names[:max(1, len(names) // 2 + 1)]}[how] if names else []

        def names_agree(what):
            run.check(list(inst.detector_names) == [d['name'] for d in D], 'detectors', lambda: 'after %s the detectors are %s, not %s' % (
                what, inst.detector_names, [d['name'] for d in D]))
            run.check(set(inst.field_names) == set(F), 'fields', lambda: 'after %s the fields are %s, not %s' % (
                what, inst.field_names, list(F)))

        ids = [0]

        for k, op in run.steps():
            kind = op['op']
            r = np.random.RandomState(op['dseed'])
            out = None
            boom['n'] = None
            if kind in ('add', 'set', 'del'):
                for f in F.values():
                    f['sure'] = False
            if kind == 'add':
                name = op['name']
                real = name if name is not None else None
                kw = {}
                for m in FNAME:
                    kw.update(given(m, op[m]))
                if op.get('broken'):
                    kw[[FNAME[op['broken']], op['broken'] + '_kwargs'][op['dseed'] % 2]] = 5
                new = {m: resolve(m, op[m]) for m in FNAME}
                good = all(new.values()) and not op.get('broken') and (op['off'] is None or len(op['off']) == 2) and (name is None or name not in [d['name'] for d in D])
                boom['n'] = op.get('boom')
                before = [d['name'] for d in D]
                if not op['nominal'] and boom['n'] is None:
                    op = dict(op)
                off = op['off'] if op['off'] is None or op['dseed'] % 2 else tuple(op['off'])
                out = run.call('add_detector', lambda: inst.add_detector(name=name, pointing_offsets=off,
                                                                         nominal_frequency=100. if op['nominal'] else None, **kw), op)
                hit = op.get('boom') is not None and boom['n'] is None or bool(out.fired)
                boom['n'] = None
                spoil(kw)
                now = list(inst.detector_names)
                if not good:
                    if name is not None:
                        run.check(not out.ok, 'accepted', 'adding a detector with %s was not refused' % op)
                if out.ok or (hit and len(now) > len(before)):
                    real = name if name is not None else now[-1]
                    if not all(new.values()) or op.get('broken'):
                        run.fail('accepted', 'a detector without a determined response was accepted: %s' % op)
                    D.append(dict(new, name=real, off=tuple(op['off'] or (0, 0))))
                elif good and name is not None and name != 'instrument' and not hit:
                    run.fail('fails', 'adding a detector failed: %r\n%s' % (out.exc, getattr(w, 'last_tb', '')))
            elif kind == 'set':
                have = [d['name'] for d in D]
                names = {'all': [], 'some': pick(have, 'some', r), 'one': pick(have, 'one', r), 'unknown': pick(have, 'one', r) + ['nobody'],
                         'twice': pick(have, 'one', r) * 2}[op['dets']]
                if op['inst']:
                    names = names + ['instrument']
                r.shuffle(names)
                m = op['mode']
                kw = given(m, op['resp'])
                if op['badkw']:
                    kw[m + '_kwargs'] = 5
                setter = {'spatial': inst.set_spatial_respones, 'spectral': inst.set_spectral_respones, 'noise': inst.set_noise_functions}[m]
                out = run.call('set', lambda: setter(*names, **kw), op)
                spoil(kw)
                who = [n for n in names if n != 'instrument'] if names else have
                bad = op['badkw'] or 'nobody' in names or len(set(who)) < len(who) or (op['resp'][0] is None and who)
                if bad:
                    run.check(not out.ok, 'accepted', 'setting %s of %s to %s was not refused' % (m, names, op['resp']))
                else:
                    run.expect_ok(out, 'fails', 'setting %s of %s to %s' % (m, names, op['resp']))
                    for d in D:
                        if d['name'] in who:
                            d[m] = (op['resp'][0], op['resp'][1] or {})
                    if 'instrument' in names:
                        default[m] = (op['resp'][0], op['resp'][1])
            elif kind == 'del':
                have = [d['name'] for d in D]
                r.shuffle(have)
                names = have[:op['n']] + (['nobody'] if op['unknown'] else [])
                out = run.call('del_detectors', lambda: inst.del_detectors(*names), op)
                if op['unknown']:
                    run.check(not out.ok, 'accepted', 'removing a detector that does not exist was not refused')
                else:
                    run.expect_ok(out, 'fails', 'removing detectors %s' % names)
                    D[:] = [d for d in D if d['name'] not in names]
            elif kind == 'field':
                if op['reuse'] and grids:
                    g = grids[r.randint(len(grids))]
                    wrong = None
                else:
                    n = [r.randint(3, 7), r.randint(3, 7), r.randint(2, 5)]
                    pix = np.array([r.choice([0.5, 1.]), r.choice([0.5, 1.]), r.choice([0.5, 1.])])
                    u = {'match': ['arcmin', 'arcmin', 'GHz'], 'none': None, 'wrong': [['deg', 'arcmin', 'GHz'], ['arcmin', 'deg', 'GHz'],
                                                                                     ['arcmin', 'arcmin', 'Hz']][r.randint(3)]}[op['units']]
                    p = op['props']
                    gu = {'match': 'Jy', 'none': None, 'wrong': 'Jy'}[op['units']]
                    if p > 1 and op['units'] == 'match' and r.rand() < 0.5:
                        gu = ['Jy'] * p
                    start = p if not op['grown'] or p == 1 else p - 1
                    if start != p and not isinstance(gu, (str, type(None))):
                        gu = gu[:start]

                    def make():
                        g = mm.Grid(start, np.array([r.uniform(-2, 2), r.uniform(-2, 2), 100.]), pix * n, pix, axunits=u, gridunits=gu)
                        g.init_grid()
                        g.grid += r.uniform(-1, 2, g.grid.shape)
                        for _ in range(p - start):
                            g.add_new_prop(r.uniform(-1, 2, g.grid.shape[:-1]))
                        return g
                    g = run.expect_ok(w.op('grid', make), 'fails', 'making a grid (%s)' % op)
                    g.sim_wrong = op['units'] == 'wrong' and cfg['units']
                    grids.append(g)
                p = g.grid.shape[-1]
                idx = {None: None, 0: 0, 'last': p - 1, 'over': p, 'over2': p + 1, -1: -1}[op['prop']]
                valid = idx is None or 0 <= idx < p
                fits = cfg['best'] is None or max(g.pixel_size[:2]) <= cfg['best']
                name = op['name']
                out = run.call('add_field', lambda: inst.add_field(g, name=name, field_property_idx=idx, in_place=op['in_place']), op)
                if not valid or g.sim_wrong or (name is not None and name in F):
                    run.check(not out.ok, 'mismatched', lambda: 'a field of %d properties was accepted for property %s, units %s, name %r' % (
                        p, idx, g.axunits, name))
                elif fits and name is not None:
                    run.expect_ok(out, 'fails', 'adding a field of %d properties for property %s (units %s, %s)' % (p, idx, g.axunits, g.gridunits))
                if out.ok:
                    real = name if name is not None else [x for x in inst.field_names if x not in F][0]
                    F[real] = {'g': g, 'prop': idx or 0, 'ref': op['in_place'], 'a': np.array(g.grid[..., idx or 0]), 'maps': [], 'sure': False,
                               'ext': False}
            elif kind == 'delfield':
                have = list(F)
                r.shuffle(have)
                names = have[:op['n']]
                run.expect_ok(run.call('del_fields', lambda: inst.del_fields(*names), op), 'fails', 'removing fields')
                for n in names:
                    F.pop(n)
            elif kind == 'edit':
                run.points[k] = []
                if grids:
                    g = grids[r.randint(len(grids))]
                    if op['dseed'] % 2:
                        g.grid *= 2.
                    else:
                        g.grid = g.grid + 1.
                    for f in F.values():
                        if f['ref'] and f['g'] is g:
                            f['ext'] = True
                            f['a'] = np.array(g.grid[..., f['prop']])
            elif kind == 'map':
                names = pick(F, op['fields'], r)
                beam, kernel = None, None
                how = op['beam']
                if how in ('kernel', 'both'):
                    kernel = tuple(int(x) for x in r.choice([2, 3, 5, 8], 2))
                if how in ('grid', 'both'):
                    names = pick(F, 'one', r)
                    if names:
                        g = F[names[0]]['g']
                        bn = [int(r.choice([2, 3, 5])), int(r.choice([3, 4]))]
                        beam = mm.Grid(1, [0, 0, 100.], [bn[0] * g.pixel_size[0], bn[1] * g.pixel_size[1], g.side_length[2]], g.pixel_size)
                        beam.init_grid()
                        beam.grid += r.uniform(0, 1, beam.grid.shape)
                kw = {}
                if op['norm'] is not None:
                    kw['spatial_response_norm'] = op['norm']
                if kernel is not None:
                    kw['kernel_size'] = kernel
                if beam is not None:
                    kw['beam'] = beam
                if op['pad'] is not None:
                    kw['pad'] = op['pad']
                todo = names or list(F)
                before = {n: np.array(F[n]['g'].grid) for n in todo}
                boom['n'] = op['boom']
                out = run.call('map_fields', lambda: inst.map_fields(*names, **kw), op)
                hit = (op['boom'] is not None and boom['n'] is None) or bool(out.fired)
                boom['n'] = None
                good = D and not (beam is not None and kernel is not None) and (beam is not None or kernel is not None or cfg['best'] is not None) \
                    and all(usable(d, 'spectral') and (beam is not None or usable(d, 'spatial')) for d in D)
                for n in todo:
                    run.check(np.array_equal(before[n], F[n]['g'].grid), 'changed', 'mapping changed the grid of field %r' % n)
                if good and not hit:
                    run.expect_ok(out, 'fails', lambda: 'mapping %s with %s' % (names, kw))
                for n in todo:
                    f = F[n]
                    ids[0] += 1
                    new = {'a': f['a'].copy(), 'pix': np.array(f['g'].pixel_size, dtype=float), 'centre': np.array(f['g'].center_point, dtype=float),
                           'z': np.array(f['g'].axes_centers[2]), 'norm': op['norm'] or 'peak', 'kernel': kernel,
                           'beam': None if beam is None else beam.grid[..., 0].copy(), 'id': ids[0]}
                    if out.ok:
                        f['maps'] = [new]
                        f['sure'], f['ext'] = True, False
                    elif good:
                        f['maps'] = f['maps'] + [new]
                        f['sure'] = False
                run.probe('maps' if out.ok else 'maps stopped' if hit else 'maps refused')
            elif kind == 'sample':
                names = pick(F, op['fields'], r)
                todo = names or list(inst.field_names)
                if todo:
                    g = F[todo[0]]['g']
                    pos = np.array(g.center_point[:2]) + (r.rand(op['n'], 2) - 0.5) * g.side_length[:2] * 1.3
                else:
                    pos = np.zeros((op['n'], 2))
                given_pos = pos.copy()
                boom['n'] = op['boom']
                kw = {'sample_signal': op['signal'], 'sample_noise': op['noise']}
                if op['noise']:
                    kw['dt'] = 0.5
                out = run.call('sample_fields', lambda: inst.sample_fields(given_pos, *names, **kw), op)
                hit = op['boom'] is not None and boom['n'] is None or bool(out.fired)
                boom['n'] = None
                run.check(np.array_equal(given_pos, pos), 'changed', 'sampling changed the positions passed')
                if not out.ok:
                    if todo and all(F[n]['sure'] for n in todo) and D and not hit and all(usable(d, 'noise') for d in D) and (op['signal'] or op['noise']):
                        run.fail('refused', 'sampling up-to-date fields %s is refused: %r\n%s' % (todo, out.exc, getattr(w, 'last_tb', '')))
                    run.probe('samples refused')
                elif todo:
                    res = out.value
                    if len(todo) == 1:
                        res = {todo[0]: res}
                    run.check(isinstance(res, dict) and set(res) == set(todo), 'shape', lambda: 'sampling %s gives %s' % (todo, type(out.value)))
                    for n in todo:
                        got = np.asarray(res[n])
                        run.check(got.shape == (op['n'], len(D)), 'shape', lambda: 'samples of %r have shape %s for %d detectors' % (
                            n, got.shape, len(D)))
                        noise = [None if op['noise'] and not usable(d, 'noise') else REF['noise', d['noise'][0]](op['n'], 0.5, **d['noise'][1]) if op['noise'] else np.zeros(op['n']) for d in D]
                        if op['signal']:
                            run.check(F[n]['maps'], 'unmapped', 'samples of field %r, which was never mapped, were returned' % n)
                            if F[n]['ext']:
                                continue
                        why = []
                        for m in F[n]['maps'] if op['signal'] else [None]:
                            bad = None
                            for j, d in enumerate(D):
                                if m is not None and not (usable(d, 'spectral') and (m['beam'] is not None or usable(d, 'spatial'))):
                                    bad = (d, 'returned, though its response cannot be evaluated', 'nothing')
                                    continue
                                if m is None:
                                    v, tol, sure = np.zeros(op['n']), 1e-9, np.ones(op['n'], dtype=bool)
                                else:
                                    v, tol, sure = signal(d, m, pos)
                                if noise[j] is None:
                                    bad = (d, 'returned, though its noise cannot be evaluated', 'nothing')
                                    continue
                                if op['noise'] and d['noise'][0] == 'white' and d['noise'][1].get('rms') != 0.:
                                    continue
                                v = v + noise[j]
                                ok = (np.abs(got[:, j] - v) <= tol + 1e-9 * np.abs(v)) | (np.isnan(v) & np.isnan(got[:, j])) | ~sure
                                if not np.all(ok):
                                    q = np.argmax(~ok)
                                    bad = (d, got[q, j], v[q])
                                    break
                            if bad is None:
                                break
                            why.append(bad)
                        else:
                            run.fail('stale', 'field %r: samples of detector %s are %s, by definition %s' % (n, why[-1][0], why[-1][1], why[-1][2]))
                        run.probe('samples checked')
            names_agree('%s' % kind)
            run.state(kind, None if out is None else out.status, len(D), sorted(F), [(bool(f['maps']), f['sure'], f['ref'], f['prop']) for f in F.values()],
                      len({d['off'] for d in D}), len({str(d['spatial']) for d in D}))


PROP = P21()
