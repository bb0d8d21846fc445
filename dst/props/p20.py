"""P20: saved grids reload identically and are never clobbered or half-written."""
import copy
import os
import pathlib

import numpy as np

from .. import core
from . import common

NAMES = ['a', 'a.npz', 'b', 'b.npz', 'b.grid', 'c d', "it's.npz", 'sub/e', 'ünï', '.npz', 'x.npz.npz', 'a.npz.part']
FAULTS = ('interrupt', 'eio', 'enospc', 'memerr', 'kill')
KINDS = ['grid', 'grid', 'gridder', 'gridder', 'axes', 'function', 'psf', 'spectral']
FURTHER = ['transform', 'transform', 'power', 'cross', 'collapse', 'pad', 'crop', 'newprop', 'sum', 'scale', 'cat', 'cat', 'copy', 'convolve',
           'sample', 'init', 'array', 'spherical']


def gen_further(rng):
    return {'what': rng.choice(FURTHER), 'ax': rng.choice([0, 0, 1, 2]), 'all': rng.random() < 0.4, 'in_place': rng.random() < 0.5,
            'n': rng.choice([1, 1, 2]), 'dseed': rng.getrandbits(16), 'on': rng.choice(['it', 'it', 'copy', 'result'])}


class P20:
    def generate(self, rng, tier, i):
        ops = []
        names = rng.sample(NAMES, rng.choice([1, 2, 3, 6]))
        for k in range(rng.randint(4, 12)):
            kind = rng.choice(['make', 'change', 'save', 'save', 'save', 'load', 'load', 'session', 'decoy'] if k else ['make'])
            o = {'op': kind, 'g': rng.randrange(2), 'name': rng.choice(names), 'path': rng.random() < 0.2}
            if kind == 'make':
                o.update(kind=rng.choice(KINDS), dims=rng.choice([1, 2, 2, 3]), props=rng.choice([1, 1, 2, 3]), dseed=rng.getrandbits(24),
                         units=rng.choice([None, None, 'Mpc', 'each', 'some']), gunits=rng.choice([None, 'Jy', 'each', 'some']),
                         active=rng.random() < 0.7, odd=rng.random() < 0.5, ints=rng.random() < 0.2)
            elif kind == 'change':
                o['changes'] = [gen_further(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
            elif kind == 'save':
                o.update(compress=rng.random() < 0.4, overwrite=rng.choice([None, None, False, True]),
                         retry=rng.choice([None, 'same', 'over']))
                if rng.random() < 0.7:
                    o['want'] = {'kinds': FAULTS, 'points': None}
            elif kind == 'load':
                o.update(further=[gen_further(rng) for _ in range(rng.choice([0, 2, 3, 5]))])
                if rng.random() < 0.2:
                    o['want'] = {'kinds': ('interrupt', 'eio', 'memerr'), 'points': ('file.',)}
            ops.append(o)
        return {'config': {}, 'ops': ops}

    def execute(self, run):
        w = run.w
        s = common.ready(run)
        base = os.path.join(w.base, 'maps')
        with core.seams_off(w):
            os.makedirs(os.path.join(base, 'sub'))
        G = {}                     # live grids
        held = {}                  # file -> (dump, twin) of what was saved there
        maybe = {}                 # file -> dumps it may hold

        def make(op):
            m = w.mod('simim.map')
            r = np.random.RandomState(op['dseed'])
            d, p = op['dims'], op['props']
            centre = r.uniform(-5, 5, d).round(3)
            pix = r.uniform(0.1, 2, d).round(3)
            npix = r.randint(2, 6, d)
            side = pix * npix if not op['odd'] else pix * (npix - r.rand(d) * 0.8)
            if op['ints']:
                centre, pix, side = np.round(centre), np.ones(d), npix.astype(float)
            units = {None: None, 'Mpc': 'Mpc', 'each': ['Mpc', 'rad', 'GHz'][:d], 'some': ['Mpc', None, 'GHz'][:d]}[op['units']]
            gu = {None: None, 'Jy': 'Jy', 'each': ['Jy', 'K', 'Lsun'][:p], 'some': [None, 'K', 'Lsun'][:p]}[op['gunits']]
            k = op['kind']
            if k == 'grid':
                g = m.Grid(p, centre, side, pix, axunits=units, gridunits=gu)
                if op['active']:
                    g.init_grid()
                    g.grid += r.randn(*g.grid.shape)
            elif k == 'gridder':
                n = int(r.choice([1, 30]))
                pos = centre + (r.rand(n, d) - 0.5) * side * 1.2
                vals = r.rand(n, p)
                g = m.Gridder(pos, vals, center_point=centre, side_length=side, pixel_size=pix, axunits=units, gridunits=gu)
            elif k in ('axes', 'function'):
                ax = [c + np.arange(n + 1) * q for c, n, q in zip(centre, npix, pix)]
                if k == 'axes':
                    g = m.GridFromAxes(*ax, n_properties=p, axunits=units, gridunits=gu)
                    if op['active']:
                        g.init_grid()
                        g.grid += r.randn(*g.grid.shape)
                else:
                    g = m.GridFromAxesAndFunction(lambda *a: np.add.outer(np.add.outer(a[0], a[1]), a[2]) if len(a) == 3 else
                                                  np.add.outer(a[0], a[1]) if len(a) == 2 else a[0] * 2, *ax, axunits=units,
                                                  gridunits=gu if p == 1 else None)
            elif k == 'psf':
                g = m.PSF(pix[:d] * 2, pix[:d], axunits=units, norm=['area', 'peak'][r.randint(2)])
            else:
                g = m.SpectralPSF(np.linspace(200, 300, 4), 250., pix[:1] * 3, pix[:1])
            return g

        def dump(g):
            d = {'grid': np.array(g.grid) if g.grid_active else None, 'n_properties': int(g.n_properties), 'n_objects': int(g.n_objects),
                 'n_dimensions': int(g.n_dimensions), 'is_power_spectrum': bool(g.is_power_spectrum), 'active': bool(g.grid_active),
                 'fourier_space': [bool(x) for x in g.fourier_space], 'n_pixels': [int(x) for x in g.n_pixels]}
            for x in ('axunits', 'fourier_axunits', 'gridunits'):
                d[x] = [None if y is None else str(y) for y in getattr(g, x)]
            for x in ('center_point', 'side_length', 'pixel_size'):
                d[x] = np.array(getattr(g, x), dtype='f8')
            for x in ('axes', 'axes_centers', 'fourier_axes', 'fourier_axes_centers'):
                d[x] = [np.array(y) for y in getattr(g, x)]
            return d

        def differs(a, b):
            for k in a:
                x, y = a[k], b[k]
                if k in ('axes', 'axes_centers', 'fourier_axes', 'fourier_axes_centers'):
                    ok = len(x) == len(y) and all(common.close(p, q, 1e-9, 1e-9) for p, q in zip(x, y))
                elif k == 'grid' and x is not None and y is not None:
                    ok = x.dtype == y.dtype and x.shape == y.shape and np.array_equal(x, y, equal_nan=x.dtype.kind in 'fc')
                elif isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
                    ok = common.close(x, y, 1e-9, 1e-12)
                else:
                    ok = type(x) is type(y) and x == y if not isinstance(x, np.ndarray) else False
                if not ok:
                    return '%s: %s and %s' % (k, str(x)[:200], str(y)[:200])
            return None

        def further(g, o):
            """One operation on a grid.  Returns another grid or a value, if it gives one."""
            r = np.random.RandomState(o['dseed'])
            d = int(g.n_dimensions)
            ax = min(o['ax'], max(0, d - 1))
            what = o['what']
            if what == 'transform':
                g.fourier_transform(None if o['all'] else ax)
            elif what == 'power':
                return g.power_spectrum(ax=None if o['all'] else ax, in_place=o['in_place'])
            elif what == 'cross':
                c = g.copy()
                return g.power_spectrum(cross_grid=c, in_place=o['in_place'])
            elif what == 'collapse':
                return g.collapse_dimension(ax, in_place=o['in_place'], mode=['sum', 'average'][o['n'] - 1])
            elif what == 'pad':
                g.pad(0, o['n'] if o['all'] else -o['n'])
            elif what == 'crop':
                c = g.axes_centers[ax]
                g.crop(ax, min=float(c[0]) + 1e-3 if o['all'] else None, max=float(c[-1]) - 1e-3)
            elif what == 'newprop':
                g.add_new_prop(r.randn(*[int(x) for x in g.n_pixels], o['n']) if g.grid_active and o['all'] else None)
            elif what == 'sum':
                return g.sum_properties(in_place=o['in_place'])
            elif what == 'scale':
                g.scale_axis(0, 2.0 if o['all'] else 0.5)
            elif what == 'cat':
                n = 5 * o['n']
                pos = g.center_point + (r.rand(n, d) - 0.5) * np.abs(g.side_length) * 1.1
                g.add_from_cat(pos, r.rand(n, o['n']) if o['in_place'] else None, new_props=o['all'])
            elif what == 'copy':
                return g.copy([0] if o['all'] else None)
            elif what == 'convolve':
                c = g.copy([0])
                return g.convolve(c, in_place=o['in_place'])
            elif what == 'sample':
                pos = g.center_point + (r.rand(6, d) - 0.5) * np.abs(g.side_length) * 1.2
                return g.sample(pos)
            elif what == 'init':
                g.init_grid()
            elif what == 'array':
                n = 4
                pos = g.center_point[:-1] + (r.rand(n, d - 1) - 0.5) * np.abs(g.side_length[:-1])
                g.add_from_pos_plus_array(pos, r.rand(n, int(g.n_pixels[-1])), new_prop=o['all'])
            elif what == 'spherical':
                return g.spherical_average(return_n=True)

        def target(name):
            return os.path.join(base, name if name.endswith('.npz') else name + '.npz')

        def given(op):
            p = os.path.join(base, op['name'])
            return pathlib.Path(p) if op['path'] else p

        def tree():
            with core.seams_off(w):
                return {os.path.normpath(x): v for x, v in w.snapshot_tree(base).items()}

        def load(path):
            return w.op('load', lambda: w.mod('simim.map').LoadGrid(path))

        def settle(fn, path, before, why):
            """What the file holds after a save that was stopped."""
            with core.seams_off(w):
                there = os.path.lexists(fn)
            good = maybe.pop(fn)
            out = load(path)
            if out.ok:
                d = dump(out.value)
                fits = [x for x in good if differs(x[0], d) is None]
                run.check(fits, 'different', lambda: 'after %s the file loads as a different grid (%s)' % (
                    why, [differs(x[0], d) for x in good][:2]))
                held[fn] = fits[0]
                run.probe('after a stop: ' + ('new' if fits[0] is good[-1] else 'old'))
            else:
                held.pop(fn, None)
                run.probe('after a stop: %s' % ('unreadable' if there else 'none'))

        for k, op in run.steps():
            kind = op['op']
            out = None
            if kind == 'make':
                run.points[k] = []
                G[op['g']] = run.expect_ok(w.op('make', lambda: make(op)), 'fails', 'making a grid (%s)' % op)
            elif kind == 'change':
                run.points[k] = []
                g = G.get(op['g'])
                for o in op['changes'] if g is not None else ():
                    r = w.op('change', lambda: further(g, o))
                    if not r.ok:
                        # a refused operation may leave the grid half changed, which is not what P20 is about
                        del G[op['g']]
                        break
                    if hasattr(r.value, 'grid_active'):
                        g = G[op['g']] = r.value
            elif kind == 'session':
                run.points[k] = []
                run.expect_ok(s.start(), 'session-start', 'a new session')
                G.clear()
            elif kind == 'decoy':
                run.points[k] = []
                fn = os.path.join(base, op['name'])
                with core.seams_off(w):
                    if not os.path.exists(fn):
                        with open(fn, 'w') as f:
                            f.write('mine %d' % k)
            elif kind == 'save':
                g = G.get(op['g'])
                if g is None:
                    run.points[k] = []
                    continue
                fn = target(op['name'])
                before = tree()
                with core.seams_off(w):
                    exists = os.path.lexists(fn)
                d = dump(g)
                kw = {'compress': True} if op['compress'] else {}
                if op['overwrite'] is not None:
                    kw['overwrite'] = op['overwrite']
                ok = not exists or op['overwrite'] is True
                new = (d, copy.deepcopy(g))

                def save(**more):
                    g.save(given(op), **dict(kw, **more))
                maybe[fn] = ([held[fn]] if fn in held else []) + ([new] if ok else [])
                out = run.call('save', save, op)
                after = tree()
                key = [os.path.relpath(fn, base)]
                rest = lambda t: {x: v for x, v in t.items() if x in before and x not in key}  # noqa
                run.check(rest(after) == rest(before), 'clobbered', lambda: 'saving to %r changed %s' % (
                    op['name'], [x for x in rest(before) if rest(after).get(x) != before[x]]))
                for f in out.fired:
                    run.probe('%s at %s' % (f['kind'], f['point']))
                if out.status == 'killed':
                    run.expect_ok(s.start(), 'session-start', 'a new session')
                if not ok:
                    maybe.pop(fn)
                    run.check(not out.ok, 'overwritten', 'saving to %r, which exists, was not refused' % op['name'])
                    run.check(all(after.get(x) == before.get(x) for x in key), 'overwritten', 'a refused save changed %r' % op['name'])
                elif out.ok:
                    maybe.pop(fn)
                    held[fn] = new
                    run.check(differs(d, dump(g)) is None, 'changed', lambda: 'saving changed the grid: %s' % differs(d, dump(g)))
                else:
                    run.check(out.fired, 'fails', lambda: 'saving to %r fails: %r\n%s' % (op['name'], out.exc, getattr(w, 'last_tb', '')))
                    settle(fn, fn, before, 'a save that was stopped (%s)' % out.fired)
                    if op['retry'] and out.status != 'killed':
                        with core.seams_off(w):
                            exists = os.path.lexists(fn)
                        if op['retry'] == 'over' or not exists:
                            run.expect_ok(w.op('save', lambda: save(overwrite=True) if op['retry'] == 'over' else save()), 'retry', 'saving again')
                            held[fn] = new
                    if out.status == 'killed':
                        G.clear()
                if fn in held:
                    got = run.expect_ok(load(fn), 'unreadable', 'loading %r' % op['name'])
                    p = differs(held[fn][0], dump(got))
                    run.check(p is None, 'differs', lambda: 'the grid saved as %r reloads differently: %s' % (op['name'], p))
                run.probe('saves')
            elif kind == 'load':
                fn = target(op['name'])
                if fn not in held:
                    run.points[k] = []
                    continue
                before = tree()
                out = run.call('load', lambda: w.mod('simim.map').LoadGrid(pathlib.Path(fn) if op['path'] else fn), op)
                run.check(tree() == before, 'changed', 'loading changed files')
                if not out.ok:
                    run.check(out.fired, 'unreadable', lambda: 'loading %r fails: %r' % (op['name'], out.exc))
                    out2 = run.expect_ok(load(fn), 'unreadable', 'loading again')
                g = out.value if out.ok else out2
                d, twin = held[fn]
                p = differs(d, dump(g))
                run.check(p is None, 'differs', lambda: 'the grid saved as %r reloads differently: %s' % (op['name'], p))
                G[op['g']] = g
                t = copy.deepcopy(twin)
                for o in op['further']:
                    a, b = (g, t) if o['on'] != 'copy' else (None, None)
                    if a is None:
                        ra, rb = w.op('copy', lambda: g.copy()), w.op('copy', lambda: t.copy())
                        run.check(ra.ok == rb.ok, 'further', lambda: 'copying the reloaded grid: %s; the original: %s' % (ra.brief(), rb.brief()))
                        if not ra.ok:
                            continue
                        a, b = ra.value, rb.value
                    ra, rb = w.op('further', lambda: further(a, o)), w.op('further', lambda: further(b, o))
                    run.check(ra.ok == rb.ok, 'further', lambda: '%s of the reloaded grid: %r; of the original: %r' % (o['what'], ra.exc, rb.exc))
                    for x, y, what in ((a, b, 'the grid'), (g, t, 'the grid it was copied from'), (ra.value, rb.value, 'the result')):
                        if hasattr(x, 'grid_active'):
                            p = differs(dump(y), dump(x))
                            run.check(p is None, 'further', lambda: 'after %s %s differs between original and reloaded: %s' % (o['what'], what, p))
                        elif what == 'the result' and ra.ok:
                            same = repr(x) == repr(y)
                            run.check(same, 'further', lambda: '%s of the reloaded grid gives %r, of the original %r' % (o['what'], x, y))
                    if o['on'] == 'result' and ra.ok and hasattr(ra.value, 'grid_active'):
                        # what is done to a result does not reach the grid it came from
                        o2 = dict(o, what=['cat', 'newprop', 'scale'][o['dseed'] % 3])
                        xa, xb = w.op('further', lambda: further(ra.value, o2)), w.op('further', lambda: further(rb.value, o2))
                        run.check(xa.ok == xb.ok, 'further', lambda: '%s after %s of the reloaded grid: %r; of the original: %r' % (
                            o2['what'], o['what'], xa.exc, xb.exc))
                        p = differs(dump(t), dump(g))
                        run.check(p is None, 'further', lambda: 'after %s on the result of %s the grid differs between original and reloaded: %s' % (
                            o2['what'], o['what'], p))
                    run.probe('further: ' + o['what'] + ('' if ra.ok else ' (both refuse)'))
                    if not ra.ok:
                        del G[op['g']]
                        break
                run.probe('loads')
            run.state(kind, op.get('kind'), op.get('dims'), op.get('props'), None if out is None else out.status, sorted(held)[:3],
                      [f['point'] for f in out.fired] if out is not None else [], [o['what'] for o in op.get('further', op.get('changes', []))])


PROP = P20()
