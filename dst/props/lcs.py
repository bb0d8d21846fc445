"""Light-cone and sphere workloads: geometry, planted halos, and a brute-force oracle over periodic images."""
import os

import numpy as np

from .. import core, synth
from .common import ready
from . import hnd

SIMS = ['TNG100-1', 'TNG300-2', 'Illustris-3-Dark', '_testbox', 'UniverseMachine-SMDPL', 'TNG100-3']

_dist = {}


def cosmo(h):
    from astropy.cosmology import FlatLambdaCDM
    import astropy.units as u
    if h not in _dist:
        c = FlatLambdaCDM(H0=100 * h * u.km / u.s / u.Mpc, Om0=0.307, Ob0=0.048, Tcmb0=2.7255 * u.K)
        z = np.concatenate([np.linspace(0, 0.2, 4001), np.linspace(0.2, 12, 30001)[1:]])
        _dist[h] = (z, c.comoving_distance(z).value * h)
    return _dist[h]


def dist(z, h):
    t = cosmo(h)
    return np.interp(z, t[0], t[1])


def zof(d, h):
    t = cosmo(h)
    return np.interp(d, t[1], t[0])


def fast_distances():
    """astropy's comoving distances on the long grid every maker computes, kept per cosmology (the same numbers)."""
    from astropy.cosmology import FLRW
    real = FLRW.comoving_distance
    if getattr(real, 'kept', None) is not None:
        return
    kept = {}

    def comoving_distance(self, z, *a, **kw):
        if a or kw or not isinstance(z, np.ndarray) or z.ndim != 1 or len(z) < 1000:
            return real(self, z, *a, **kw)
        key = (type(self).__name__, repr(self.H0), self.Om0, self.Ob0, repr(self.Tcmb0), repr(self.m_nu), self.Neff, self.Ode0, z.tobytes())
        if key not in kept:
            kept[key] = real(self, z)
        return kept[key].copy()
    comoving_distance.kept = kept
    FLRW.comoving_distance = comoving_distance


def gen_cone(rng, deep=True):
    """A simulation and the geometry of a set of light cones that fit in it."""
    n = rng.choice([1, 2, 2, 3, 4])
    zs = sorted({round(rng.uniform(0.03, 3.0 if deep else 0.8), 3) for _ in range(n)}, reverse=True)
    zs = [z for k, z in enumerate(zs) if k == 0 or zs[k - 1] - z > 0.03]
    h = rng.choice([0.678, 0.7, 0.6774])
    box = rng.choice([20, 40.0, 75, 205])
    spec = {'sim': rng.choice(SIMS), 'zs': zs, 'counts': [rng.choice([0, 3, 12, 40, 40, 90]) for _ in zs], 'box': box, 'h': h,
            'layout': 'file', 'emptykeys': False, 'ties': rng.random() < 0.3, 'extreme': False, 'seed': rng.getrandbits(32),
            'first': rng.choice([0, 0, 5]), 'mcount': 0}
    top = zs[0]
    zmax = top if rng.random() < 0.3 else rng.uniform(0.3, 0.98) * top
    zmin = rng.choice([0, 0, 0, 0.01]) if rng.random() < 0.6 else rng.uniform(0.05, 0.9) * zmax
    D = float(dist(zmax, h))
    # few enough replicas for a test, small enough to fit
    while D / box > 45:
        box = spec['box'] = box * 2
    angle = rng.uniform(0.05, 0.3) * box / D
    # the whole snapshot the far end lies in has to fit, with 10 Mpc/h to spare
    D = max(float(m['transverse_distance_max']) for m in synth.snap_meta(spec) if m['redshift_min'] <= zmax)
    angle = min(angle, 0.15)
    while room(spec, angle / 2 * 2**0.5, D) < 14:
        angle *= 0.8
    return spec, {'zmin': zmin, 'zmax': zmax if zmax != top or rng.random() < 0.5 else 'max',
                  'angle': float(np.degrees(angle)), 'aspect': rng.choice([1.0, 1.0, 0.7, 0.4]),
                  'mode': rng.choice(['box', 'box', 'circle'])}


def room(spec, radius, D):
    """Length of the simulation (and its copies) left beside a cone along the diagonal of the box."""
    copies = 2 if spec['sim'].startswith(('TNG', 'Illustris')) else 1
    return copies * spec['box'] * 3**0.5 - 2 * 1.01 * (np.tan(radius) * 2**0.5 + 1 - np.cos(radius)) * D


class Endless(BaseException):
    pass


class Counted(np.random.Generator):
    """A generator that gives up after some draws."""
    left = 60000

    def count(self):
        self.left -= 1
        if self.left < 0:
            raise Endless('no end in sight')

    def random(self, *a, **kw):
        self.count()
        return super().random(*a, **kw)

    def uniform(self, *a, **kw):
        self.count()
        return super().uniform(*a, **kw)


def too_wide(rng, spec, geo):
    """The same cone so wide that no line of sight leaves room for it (None if other limits are met first)."""
    zmax = spec['zs'][0] if geo['zmax'] == 'max' else geo['zmax']
    D = max(float(m['transverse_distance_max']) for m in synth.snap_meta(spec) if m['redshift_min'] <= zmax)
    angle = np.radians(geo['angle'])
    for _ in range(60):
        r = angle / 2 if geo['mode'] == 'circle' else angle / 2 * np.hypot(1, geo['aspect'])
        if angle * dist(zmax, spec['h']) > 0.99 * spec['box']:
            return None
        if room(spec, r, D) < 9.99 or r > 0.27:
            return dict(geo, angle=float(np.degrees(angle)))
        angle *= rng.uniform(1.1, 1.4)


def catalog(spec, dseed, extra=True):
    """Property tables of all snapshots, in the order they have on disk."""
    out = {}
    for i in synth.indices(spec):
        p = hnd.snap_props(spec, i, dseed)
        if extra:
            n = len(p['mass'][0])
            r = np.random.RandomState((dseed + i) % (2**32))
            for a in 'xyz':
                p['cm_' + a] = (r.randn(n), 'Mpc/h', -1, False)
                if dseed % 2:
                    p['spin_' + a] = (r.randn(n), 'Msun/h Mpc/h km/s', -2, False)
            p['score'] = (r.randint(-2**50, 2**50, n), 'None', 0, True)
        out[i] = p
    return sort(out)


def sort(props):
    for i in props:
        o = np.argsort(-np.asarray(props[i]['mass'][0], dtype='f4'), kind='stable')
        props[i] = {k: (np.asarray(v)[o], un, hd, ud) for k, (v, un, hd, ud) in props[i].items()}
    return props


class LcGround:
    def __init__(self, run, cfg):
        self.run, self.cfg, self.spec = run, cfg, cfg['spec']
        self.s = ready(run)
        w = run.w
        self.simdir = os.path.join(w.base, 'sims', 'S')
        self.lcdir = os.path.join(w.base, 'lcs', 'L')
        with core.seams_off(w):
            os.makedirs(self.simdir)
            os.makedirs(self.lcdir)
            self.props = catalog(self.spec, cfg['dseed'])
            self.write()
            synth.register(w, self.s.root, 'sims', self.spec['sim'], self.simdir)
            synth.register(w, self.s.root, 'lcs', self.spec['sim'], self.lcdir)
        self.s.start()

    def write(self):
        self.simfile = synth.write_formatted(self.spec, self.simdir, self.props)

    def maker(self, name, geo, overwrite=True, minmass=0):
        """The call that makes a light-cone (or sphere) maker."""
        lc = self.run.w.mod('simim.lightcone')
        if geo['mode'] in ('box', 'circle'):
            return lc.LCMaker(self.spec['sim'], name, openangle=geo['angle'], aspect=geo['aspect'], redshift_min=geo['zmin'],
                              redshift_max=geo['zmax'], minimum_mass=minmass, mode=geo['mode'], overwrite=overwrite)
        from importlib import import_module
        return import_module('simim.lightcone.lcmaker').SphereMaker(
            self.spec['sim'], name, redshift_min=geo['zmin'], redshift_max=geo['zmax'], minimum_mass=minmass, mode=geo['mode'],
            overwrite=overwrite)

    def file(self, name, j):
        return os.path.join(self.lcdir, name, 'lc_%04d.hdf5' % j)


def read_cone(w, fn):
    import h5py
    with core.seams_off(w):
        with h5py.File(fn, 'r') as f:
            a = {k: f.attrs[k] for k in f.attrs}
            g = {}
            for grp in ('Lightcone Full', 'Lightcone Basic', 'Lightcone Extra'):
                if grp in f:
                    g[grp] = {k: (f[grp][k][()], f[grp][k].attrs.get('units'), f[grp][k].attrs.get('h dependence')) for k in f[grp]}
            ix = {k: f['Indexing'][k][()] for k in f['Indexing']} if 'Indexing' in f else {}
    return a, g, ix


def content(w, fn):
    """What a cone holds, apart from the times it was made."""
    d = core_dump(w, fn)
    d['/'] = {k: v for k, v in d['/'].items() if k not in ('created', 'finished')}
    return d


def core_dump(w, fn):
    with core.seams_off(w):
        return core.h5_dump(fn)


# -- light cones ----------------------------------------------------------------
def frame(a):
    """Rotation into (line of sight, x, y) of a cone."""
    return np.matmul(a['position angle transformation matrix'], a['line of sight transformation matrix'])


def snapshot_ranges(spec, geo):
    """[(snapshot, first distance, end distance)] of the requested range."""
    h = spec['h']
    zmax = spec['zs'][0] if geo['zmax'] == 'max' else geo['zmax']
    lo, hi = float(dist(geo['zmin'], h)), float(dist(zmax, h))
    out = []
    for m in synth.snap_meta(spec):
        a, b = max(lo, float(m['distance_min'])), min(hi, float(m['distance_max']))
        if b > a:
            out.append((int(m['index']), a, b))
    return sorted(out, key=lambda x: x[1])


def images(p, S, L, los, dmax):
    """All periodic images of points p (already reflected, in [0, L)) near the line of sight, seen from S."""
    ks = set()
    for t in np.arange(0, dmax + L / 4, L / 4):
        c = np.floor((los * t + S) / L).astype(int)
        for a in (-1, 0, 1):
            for b in (-1, 0, 1):
                for e in (-1, 0, 1):
                    ks.add((c[0] + a, c[1] + b, c[2] + e))
    ks = np.array(sorted(ks))
    q = p[:, None, :] - S + L * ks[None, :, :]
    return ks, q


def cone_problem(spec, props, geo, minmass, a, g, ix, meta=True):
    """What is wrong with a finished light cone (None: nothing)."""
    h, L = spec['h'], float(spec['box'])
    R = frame(a)
    if R.shape != (3, 3) or not np.allclose(R @ R.T, np.eye(3), atol=1e-8):
        return 'the frame is no rotation'
    los = np.asarray(a['line of sight vector'])
    if not np.allclose(R[0], los, atol=1e-8) or not np.isclose(np.linalg.norm(los), 1):
        return 'line of sight and frame disagree'
    flips, S = np.asarray(a['box flips']), np.asarray(a['start position'])
    if not np.all(np.abs(flips) == 1) or not np.all((S >= 0) & (S <= L)):
        return 'reflection or start position out of range'
    full = g.get('Lightcone Full')
    if full is None:
        return 'no light cone'
    need = ['pos_x', 'pos_y', 'pos_z', 'ra', 'dec', 'redshift', 'mass']
    if any(k not in full for k in need):
        return 'properties %s' % sorted(full)
    un = {k: ('Mpc/h', -1) for k in ('pos_x', 'pos_y', 'pos_z')}
    un.update(ra=('radians', 0), dec=('radians', 0), redshift=('None', 0), mass=('Msun/h', -1))
    for k in need:
        if full[k][1] != un[k][0] or int(full[k][2]) != un[k][1]:
            return 'units of %s: %r %r' % (k, full[k][1], full[k][2])
    X = np.array([full['pos_z'][0], full['pos_x'][0], full['pos_y'][0]], dtype='f8').T.reshape(-1, 3)
    n = len(X)
    si = ix['sim_indices']
    if any(len(full[k][0]) != n for k in need) or len(si) != n:
        return 'columns of different length'
    d = np.linalg.norm(X, axis=1)
    red, ra, dec, mass = (np.asarray(full[k][0], dtype='f8') for k in ('redshift', 'ra', 'dec', 'mass'))
    if not np.allclose(ra, X[:, 1] / d, atol=1e-6) or not np.allclose(dec, X[:, 2] / d, atol=1e-6):
        return 'angles and positions disagree'
    if not np.allclose(dist(red, h), d, rtol=1e-5, atol=2e-3):
        k = int(np.argmax(np.abs(dist(red, h) - d)))
        return 'entry %d: redshift %g is distance %g, its distance is %g' % (k, red[k], dist(red[k], h), d[k])
    # every entry is an image of its parent
    seen = {}
    q = X @ R                            # back in the axes of the simulation
    for e in range(n):
        i, j = int(si['snap'][e]), int(si['index'][e])
        if i not in props or not 0 <= j < len(props[i]['mass'][0]):
            return 'entry %d refers to halo %d of snapshot %d' % (e, j, i)
        P = props[i]
        p = (np.array([P['pos_' + c][0][j] for c in 'xyz'], dtype='f8') * flips) % L
        k = (q[e] + S - p) / L
        kr = np.round(k)
        if not np.allclose(k, kr, atol=2e-5 * max(1, d[e] / L) + 1e-5):
            return "entry %d at %s is no image of its parent (halo %d of snapshot %d at %s): %s" % (e, X[e], j, i, p, k)
        if mass[e] != float(P['mass'][0][j]):
            return 'entry %d has mass %r, its parent %r' % (e, mass[e], P['mass'][0][j])
        key = (i, j) + tuple(int(x) for x in kr)
        if key in seen:
            return 'entries %d and %d are the same image' % (seen[key], e)
        seen[key] = e
    # every image that belongs is listed
    ang = np.radians(geo['angle'])
    if geo['mode'] == 'box':
        lim = (ang / 2, ang * geo['aspect'] / 2)
    must, may = set(), set()
    for i, lo, hi in snapshot_ranges(spec, geo):
        P = props[i]
        if not len(P['mass'][0]):
            continue
        p = (np.array([P['pos_' + c][0] for c in 'xyz'], dtype='f8').T * flips) % L
        ks, qq = images(p, S, L, los, hi)
        XX = qq @ R.T
        dd = np.linalg.norm(XX, axis=2)
        for tol, out in ((-1, must), (1, may)):
            eps = tol * 2e-6
            with np.errstate(all='ignore'):
                if geo['mode'] == 'box':
                    ok = (np.abs(XX[..., 1]) / dd <= lim[0] + eps) & (np.abs(XX[..., 2]) / dd <= lim[1] + eps)
                else:
                    ok = np.hypot(XX[..., 1], XX[..., 2]) / dd < ang / 2 + eps
            de = tol * (1e-5 * hi + 1e-3)
            ok &= (dd >= lo - de) & (dd < hi + de) & (XX[..., 0] > -tol * 1e-9)
            ok &= (P['mass'][0] >= minmass)[:, None]
            for j, k in zip(*np.nonzero(ok)):
                out.add((i, int(j)) + tuple(int(x) for x in ks[k]))
    extra = set(seen) - may
    if extra:
        e = seen[sorted(extra)[0]]
        return 'entry %d does not belong: at %s, distance %g, halo %s, mass %g' % (e, X[e], d[e], sorted(extra)[0][:2], mass[e])
    lost = must - set(seen)
    if lost:
        k = sorted(lost)[0]
        P = props[k[0]]
        p = (np.array([P['pos_' + c][0][k[1]] for c in 'xyz'], dtype='f8') * flips) % L
        x = R @ (p - S + L * np.array(k[2:]))
        return 'an image is missing: halo %s at %s (distance %g) of %d expected, %d listed' % (k[:2], x, np.linalg.norm(x), len(must), n)
    return index_problem(ix, red)


def index_problem(ix, red):
    t = ix['redshift_indices']
    for row in t[1:]:
        lo = int(np.count_nonzero(red <= float(row['redshift']) * (1 - 1e-6)))
        hi = int(np.count_nonzero(red <= float(row['redshift']) * (1 + 1e-6)))
        if not lo <= int(row['index']) <= hi:
            return 'the redshift index counts %d entries up to %g, there are %d' % (row['index'], row['redshift'], lo)
    return None


def plant(spec, props, geo, attrs, rng):
    """Move halos to where the geometry of known pointings has its edges.  Returns the number planted."""
    L, h = float(spec['box']), spec['h']
    ang = np.radians(geo['angle'])
    made = 0
    rs = snapshot_ranges(spec, geo)
    meta = {int(m['index']): m for m in synth.snap_meta(spec)}
    for a in attrs:
        R, S, f = frame(a), np.asarray(a['start position']), np.asarray(a['box flips'])
        for i, lo, hi in rs:
            n = len(props[i]['mass'][0])
            for _ in range(min(n // 3, 8)):
                what = rng.choice(['edge-in', 'edge-out', 'corner', 'behind', 'near', 'start', 'end', 'axis'])
                d = rng.uniform(lo, hi)
                x = y = 0.0
                asp = geo['aspect'] if geo['mode'] == 'box' else 1.0
                if what == 'behind':
                    if lo > 0:
                        continue
                    d = rng.uniform(0.05, min(3.0, hi))
                    X = np.array([-d, 0, 0])
                    t = rng.random() * 0.9
                    X[1] = d * ang / 2 * t * rng.choice([-1, 1])
                else:
                    if what == 'start':
                        d = lo * (1 + 1e-4) + 0.02
                    elif what == 'end':
                        d = hi * (1 - 1e-4) - 0.02
                    elif what == 'near':
                        d = rng.uniform(lo, min(hi, lo + 2.0))
                    s = 0.995 if what == 'edge-in' else 1.005 if what == 'edge-out' else rng.random()
                    if what == 'corner' and geo['mode'] == 'box':
                        x, y = 0.99 * rng.choice([-1, 1]), 0.99 * rng.choice([-1, 1])
                    elif what == 'axis':
                        x = y = 0.0
                    elif rng.random() < 0.5:
                        x, y = s * rng.choice([-1, 1]), rng.uniform(-0.4, 0.4) if geo['mode'] == 'box' else 0.0
                    else:
                        x, y = rng.uniform(-0.4, 0.4) if geo['mode'] == 'box' else 0.0, s * rng.choice([-1, 1])
                    X = np.array([0, x * ang / 2 * d, y * ang * asp / 2 * d])
                    r2 = d * d - X[1]**2 - X[2]**2
                    if r2 <= 0:
                        continue
                    X[0] = np.sqrt(r2)
                p = ((R.T @ X + S) % L * f) % L
                j = rng.randrange(n)
                for c, v in zip('xyz', p):
                    arr = props[i]['pos_' + c][0]
                    arr[j] = v
                made += 1
    return made


# -- spheres ------------------------------------------------------------------
SPHERES = ('sphere', 'hemisphere', 'quarter', 'eighth')


def gen_sphere(rng, fits=True):
    """A simulation and a part of a sphere around a point of it."""
    h = rng.choice([0.678, 0.7, 0.6774])
    box = rng.choice([20, 40.0, 75, 205, 400])
    mode = rng.choice(SPHERES)
    room = box if mode == 'eighth' else box / 2
    R = room * (rng.choice([0.999, rng.uniform(0.2, 0.99)]) if fits else rng.uniform(1.02, 1.6) / h)
    zmax = float(zof(R, h))
    n = rng.choice([1, 1, 2, 3])
    top = zmax * (1.0 if rng.random() < 0.2 else rng.uniform(1.05, 3))
    zs = [top]
    while len(zs) < n:
        zs.append(zs[-1] * rng.uniform(0.3, 0.8))
    zmin = rng.choice([0, 0, rng.uniform(0.1, 0.9) * zmax])
    spec = {'sim': rng.choice(SIMS), 'zs': zs, 'counts': [rng.choice([0, 3, 40, 90, 300]) for _ in zs], 'box': box, 'h': h,
            'layout': 'file', 'emptykeys': False, 'ties': rng.random() < 0.3, 'extreme': False, 'seed': rng.getrandbits(32),
            'first': rng.choice([0, 0, 5]), 'mcount': 0}
    return spec, {'zmin': zmin, 'zmax': 'max' if top == zmax and rng.random() < 0.7 else zmax, 'mode': mode}


def sphere_problem(spec, props, geo, minmass, a, g, ix):
    """What is wrong with a finished sphere (None: nothing)."""
    h, L = spec['h'], float(spec['box'])
    flips, S = np.asarray(a['box flips']), np.asarray(a['start position'])
    if not np.all(np.abs(flips) == 1) or not np.all((S >= 0) & (S <= L)):
        return 'reflection or start position out of range'
    full = g.get('Lightcone Full')
    if full is None:
        return 'no light cone'
    un = {k: ('Mpc/h', -1) for k in ('pos_x', 'pos_y', 'pos_z')}
    un.update(ra=('radians', 0), dec=('radians', 0), redshift=('None', 0), mass=('Msun/h', -1))
    for k in un:
        if k not in full:
            return 'properties %s' % sorted(full)
        if full[k][1] != un[k][0] or int(full[k][2]) != un[k][1]:
            return 'units of %s: %r %r' % (k, full[k][1], full[k][2])
    X = np.array([full['pos_' + c][0] for c in 'xyz'], dtype='f8').T.reshape(-1, 3)
    n = len(X)
    si = ix['sim_indices']
    if any(len(full[k][0]) != n for k in un) or len(si) != n:
        return 'columns of different length'
    d = np.linalg.norm(X, axis=1)
    red, ra, dec, mass = (np.asarray(full[k][0], dtype='f8') for k in ('redshift', 'ra', 'dec', 'mass'))
    U = np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)]).T
    if not np.allclose(U * d[:, None], X, atol=1e-4 * L) or np.any((ra < 0) | (ra > 2 * np.pi)) or np.any(np.abs(dec) > np.pi / 2):
        return 'angles and positions disagree'
    if not np.allclose(dist(red, h), d, rtol=1e-4, atol=5e-3):
        k = int(np.argmax(np.abs(dist(red, h) - d)))
        return 'entry %d: redshift %g is distance %g, its distance is %g' % (k, red[k], dist(red[k], h), d[k])
    seen = {}
    for e in range(n):
        key = (int(si['snap'][e]), int(si['index'][e]))
        if key in seen:
            return 'entries %d and %d are the same halo' % (seen[key], e)
        seen[key] = e
    must, may = set(), set()
    for i, lo, hi in snapshot_ranges(spec, geo):
        P = props[i]
        m = len(P['mass'][0])
        if not m:
            continue
        p = (np.array([P['pos_' + c][0] for c in 'xyz'], dtype='f8').T * flips) % L
        q = (p - S) % L if geo['mode'] == 'eighth' else (p - S + L / 2) % L - L / 2
        dd = np.linalg.norm(q, axis=1)
        for tol, out in ((-1, must), (1, may)):
            de = tol * (1e-5 * hi + 1e-3)
            s = -tol * 1e-9
            ok = (dd >= lo - de) & (dd < hi + de) & (P['mass'][0] >= minmass)
            if geo['mode'] in ('hemisphere', 'quarter'):
                ok &= q[:, 2] > s
            if geo['mode'] == 'quarter':
                ok &= q[:, 1] > s
            for j in np.nonzero(ok)[0]:
                out.add((i, int(j)))
                if (i, int(j)) in seen:
                    e = seen[(i, int(j))]
                    if not np.allclose(X[e], q[j], atol=1e-5 * L):
                        return 'entry %d is at %s, halo %d of snapshot %d is at %s' % (e, X[e], j, i, q[j])
                    if mass[e] != float(P['mass'][0][j]):
                        return 'entry %d has mass %r, its parent %r' % (e, mass[e], P['mass'][0][j])
    extra = set(seen) - may
    if extra:
        k = sorted(extra)[0]
        return 'entry %d does not belong: at %s, distance %g, halo %s' % (seen[k], X[seen[k]], d[seen[k]], k)
    lost = must - set(seen)
    if lost:
        return 'halo %s is missing: %d expected, %d listed' % (sorted(lost)[0], len(must), n)
    return index_problem(ix, red)


def plant_sphere(spec, props, geo, attrs, rng):
    """Move halos to the edges of the known spheres."""
    L = float(spec['box'])
    made = 0
    for a in attrs:
        S, f = np.asarray(a['start position']), np.asarray(a['box flips'])
        for i, lo, hi in snapshot_ranges(spec, geo):
            n = len(props[i]['mass'][0])
            for _ in range(min(n // 3, 10)):
                d = rng.choice([lo * (1 + 1e-4) + 0.003, lo * (1 - 1e-4) - 0.003, hi * (1 - 1e-4) - 0.003, hi * (1 + 1e-4) + 0.003])
                if d < 0:
                    continue
                v = np.array([rng.gauss(0, 1) for _ in range(3)])
                if rng.random() < 0.4:
                    v[rng.randrange(3)] = rng.choice([-1, 1]) * 1e-3     # next to a plane
                v *= d / np.linalg.norm(v)
                if geo['mode'] == 'eighth':
                    v = np.abs(v)
                p = ((v + S) % L * f) % L
                j = rng.randrange(n)
                for c, x in zip('xyz', p):
                    props[i]['pos_' + c][0][j] = x
                made += 1
    return made


def some_cone(rng):
    """Either kind of light cone, small."""
    while True:
        spec, geo = gen_sphere(rng) if rng.random() < 0.35 else gen_cone(rng)
        if sum(spec['counts']):
            return spec, geo
