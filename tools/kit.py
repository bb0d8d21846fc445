"""Ground for a demonstration: a copy of the package and a data directory in a scratch folder that is removed at the end."""
import atexit
import os
import shutil
import sys
import tempfile
import warnings

warnings.simplefilter('ignore')
SCRATCH = tempfile.mkdtemp(prefix='demo_')
atexit.register(shutil.rmtree, SCRATCH, True)
os.environ.update(HOME=SCRATCH, MPLBACKEND='Agg', MPLCONFIGDIR=SCRATCH, XDG_CACHE_HOME=SCRATCH, PYTHONDONTWRITEBYTECODE='1')
shutil.copytree(os.path.join(os.getcwd(), 'simim'), os.path.join(SCRATCH, 'pkg', 'simim'),
                ignore=shutil.ignore_patterns('__pycache__', 'rootpath.txt'))
sys.path.insert(0, os.path.join(SCRATCH, 'pkg'))
os.chdir(SCRATCH)
sys.stdout_, sys.stdout = sys.stdout, open(os.devnull, 'w')

import h5py
import numpy as np

import builtins

ROOT = os.path.join(SCRATCH, 'data root')
os.mkdir(ROOT)


def answers(*a):
    """What the user types at the prompts."""
    it = iter(a)

    def f(prompt=''):
        try:
            return next(it)
        except StopIteration:
            raise EOFError
    builtins.input = f


from simim._paths import _SimIMPaths
import simim._paths as _p
Paths = _SimIMPaths
assert os.path.realpath(_p.__file__).startswith(os.path.realpath(SCRATCH))
answers('y')
_SimIMPaths()._setuppath(ROOT)
answers()

META_DTYPE = [('index', 'i'), ('redshift', 'f'), ('redshift_min', 'f'), ('redshift_max', 'f'), ('time_start', 'f'), ('time_end', 'f'),
              ('distance_min', 'f'), ('distance_max', 'f'), ('transverse_distance_min', 'f'), ('transverse_distance_max', 'f')]


def metadata(sim='TNG100-1', box=75., h=0.7, n=2):
    return {'name': sim, 'box_edge': box, 'number_snaps': n, 'cosmo_name': 'Demo', 'cosmo_omega_matter': 0.3,
            'cosmo_omega_lambda': 0.7, 'cosmo_omega_baryon': 0.048, 'cosmo_h': h}


def snap_meta(zs=(1., 0.), h=0.7):
    from astropy.cosmology import FlatLambdaCDM, z_at_value
    import astropy.units as u
    c = FlatLambdaCDM(H0=100 * h, Om0=0.3)
    ages = [c.age(z).value for z in zs]
    edges = [(zs[0], ages[0])] + [(float(z_at_value(c.age, (a + b) / 2 * u.Gyr)), (a + b) / 2) for a, b in zip(ages, ages[1:])] + [(0., c.age(0).value)]
    m = np.zeros(len(zs), dtype=META_DTYPE)
    for k, z in enumerate(zs):
        (z0, t0), (z1, t1) = edges[k], edges[k + 1]
        d0, d1 = c.comoving_distance(z0).value * h, c.comoving_distance(z1).value * h if z1 > 0 else 0.
        m[k] = (k, z, z1, z0, t0, t1, d1, d0, d1, d0)
    return m


def record(kind, sim, path):
    with open(os.path.join(ROOT, 'simim_resources', '.paths', kind + 'paths.txt'), 'a') as f:
        f.write('%s %s\n' % (sim, path))


def simulation(snaps, sim='TNG100-1', box=75., h=0.7, zs=None):
    """A formatted simulation: snaps is a list of {name: (values, units, h dependence)}, sorted by mass here."""
    zs = zs or [1. - k / max(1, len(snaps) - 1) for k in range(len(snaps))]
    path = os.path.join(SCRATCH, 'sim_' + sim)
    os.mkdir(path)
    m = snap_meta(zs, h)
    np.save(os.path.join(path, 'meta.npy'), metadata(sim, box, h, len(zs)))
    np.save(os.path.join(path, 'meta_snaps.npy'), m)
    with h5py.File(os.path.join(path, 'data.hdf5'), 'w') as f:
        for k, v in metadata(sim, box, h, len(zs)).items():
            f.attrs[k] = v
        f.attrs['snapshots'] = m
        for i, p in enumerate(snaps):
            g = f.create_group('Snapshot %d' % i)
            mass = np.asarray(p['mass'][0], dtype='f4')
            o = np.argsort(-mass, kind='stable')
            cuts = np.zeros(141, dtype=[('min_mass', 'f'), ('index', 'i')])
            cuts['min_mass'] = np.logspace(6, 20, 141)[::-1]
            cuts['index'] = [np.count_nonzero(mass >= c) for c in cuts['min_mass']]
            g.create_dataset('mass_cuts', data=cuts)
            for n, (v, un, hd) in p.items():
                g.create_dataset(n, data=np.asarray(v)[o])
                g[n].attrs['units'] = un
                g[n].attrs['h dependence'] = hd
            g.attrs['metadata'] = m[k:k + 1] if (k := i) is not None else None
    record('sim', sim, path)
    return path


def halos(n, box=75., seed=0, **more):
    r = np.random.RandomState(seed)
    d = {'mass': ((10**(r.rand(n) * 4 + 9)).astype('f4'), 'Msun/h', -1)}
    for a in 'xyz':
        d['pos_' + a] = ((r.rand(n) * box).astype('f4'), 'Mpc/h', -1)
        d['v_' + a] = ((r.randn(n) * 100).astype('f4'), 'km/s', 0)
    d['halo_id'] = (np.arange(n) + 1000, 'None', 0)
    d.update(more)
    return d


def cone(number, sim='TNG100-1', name='set', n=9, zlo=0.2, zhi=1., shape='box', angle=0.03, aspect=1., h=0.7, seed=0, z=None):
    """A finished light cone."""
    lcs = os.path.join(SCRATCH, 'lcs_' + sim)
    if not os.path.exists(lcs):
        os.mkdir(lcs)
        record('lc', sim, lcs)
    path = os.path.join(lcs, name)
    os.makedirs(path, exist_ok=True)
    r = np.random.RandomState(seed + number)
    with h5py.File(os.path.join(path, 'lc_%04d.hdf5' % number), 'w') as f:
        a = metadata(sim, 75., h)
        a.update({'snapshots': snap_meta((1., 0.), h), 'parent sim': sim, 'minimum redshift': zlo, 'maximum redshift': zhi, 'shape': shape,
                  'start position': np.zeros(3), 'box flips': np.ones(3, dtype=int), 'mass cut': 0., 'created': '2020-01-01',
                  'finished': '2020-01-01', 'status_initialized': True, 'status_basic': True, 'status_extra_initialized': False,
                  'status_extra_completed': False, 'open angle': angle, 'aspect ratio': aspect, 'position angle': 0.3})
        for k, v in a.items():
            f.attrs[k] = v
        g, b = f.create_group('Lightcone Full'), f.create_group('Lightcone Basic')
        z = np.sort(zlo + (zhi - zlo) * r.rand(n)) if z is None else np.asarray(z)
        n = len(z)
        p = {'mass': ((10**(r.rand(n) * 4 + 9)).astype('f4'), 'Msun/h', -1), 'redshift': (z, 'None', 0),
             'ra': ((r.rand(n) - .5) * angle, 'radians', 0), 'dec': ((r.rand(n) - .5) * angle, 'radians', 0)}
        for x in 'xyz':
            p['pos_' + x] = (r.rand(n) * 75, 'Mpc/h', -1)
        for k, (v, un, hd) in p.items():
            g.create_dataset(k, data=v, maxshape=(None,), chunks=(2500,))
            g[k].attrs['units'] = un
            g[k].attrs['h dependence'] = hd
            b[k] = g[k]
        ix = f.create_group('Indexing')
        q = np.zeros(100, dtype=[('redshift', 'f'), ('index', 'int')])
        q['redshift'] = (10**np.linspace(0, np.log10(21.05), 100)) - 1
        ix.create_dataset('redshift_indices', data=q)
    return os.path.join(path, 'lc_%04d.hdf5' % number)


def fails(f, *kinds):
    """Run f; whether it raised one of the kinds (any exception by default)."""
    try:
        f()
    except (kinds or (BaseException,)):
        return True
    return False


def need(cond, what):
    if not cond:
        print('BROKEN: ' + what, file=sys.stdout_)
        sys.stdout_.flush()
        raise SystemExit(1)
