"""Synthetic simulations: raw catalogues read through a SimCatalogs subclass (the documented way
of adding a simulation), and formatted catalogues written directly in the documented layout."""
import os

import h5py
import numpy as np

from . import core

SIMS = ['TNG100-1', 'TNG300-2', 'Illustris-3-Dark', 'UniverseMachine-SMDPL', '_testbox', 'UniverseMachine-uchuu']


def gen_spec(rng, small=True):
    n = rng.choice([1, 2, 2, 3, 3, 4])
    counts = [rng.choice([0, 1, 2, 5, 9, 20]) for _ in range(n)]
    zs = sorted([round(rng.uniform(0.02, 4.0) + 0.15 * k, 3) for k in range(n)], reverse=True)
    while any(a - b < 0.02 for a, b in zip(zs, zs[1:])):
        zs = sorted([round(rng.uniform(0.02, 6.0), 3) for k in range(n)], reverse=True)
    return {'sim': rng.choice(SIMS), 'zs': zs, 'counts': counts, 'box': rng.choice([10, 25.0, 75]),
            'h': rng.choice([0.678, 0.7, 0.6774]), 'layout': rng.choice(['file', 'dir', 'multi']),
            'emptykeys': rng.random() < 0.5, 'ties': rng.random() < 0.4, 'extreme': rng.random() < 0.4,
            'seed': rng.getrandbits(32), 'first': rng.choice([0, 0, 0, 5]), 'mcount': rng.choice([0, 1, 2])}


def indices(spec):
    return [spec['first'] + k for k in range(len(spec['zs']))]


def raw_data(spec, i):
    k = i - spec['first']
    n = spec['counts'][k]
    r = np.random.RandomState((spec['seed'] + 7919 * k) % (2**32))
    d = {'Pos': (r.rand(n, 3) * spec['box'] * 1000).astype('f4'),
         'Vel': (r.randn(n, 3) * 300).astype('f4'),
         'Mass': (10**(r.rand(n) * 5 - 1)).astype('f4'),
         'id': r.permutation(n).astype('i8') + 1000 * k,
         'rad': (r.rand(n) * 50).astype('f4'),
         'sm': (10**(r.rand(n) * 3 + 8)).astype('f8'),
         'multi': r.rand(n, 3).astype('f4'),
         'flag': r.randint(0, 2, n).astype('i4')}
    if spec['ties'] and n > 1:
        d['Mass'][:] = d['Mass'][r.randint(0, max(1, n // 2), n)]
    if spec['extreme'] and n > 1:
        d['Mass'][0] = 1e-5
        d['Mass'][-1] = 3e10
        if n > 4:
            d['Mass'][2] = np.float32(np.float32(np.logspace(6, 20, 141)[50]) / np.float32(1e10))
    return d


BASIC = {'Pos': [('pos_x', 'f', 'Mpc/h', -1), ('pos_y', 'f', 'Mpc/h', -1), ('pos_z', 'f', 'Mpc/h', -1)],
         'Mass': [('mass', 'f', 'Msun/h', -1)],
         'Vel': [('v_x', 'f', 'km/s', 0), ('v_y', 'f', 'km/s', 0), ('v_z', 'f', 'km/s', 0)]}
DM = {'id': [('halo_id', 'i', 'None', 0)], 'rad': [('r_hm', 'f', 'kpc/h', -1)],
      'multi': [('m_gas', 'f', 'Msun/h', -1), ('none', 'f', 'Msun/h', -1), ('m_dm', 'f', 'Msun/h', -1)]}
MATTER = [{}, {'sm': [('m_stars', 'f', 'Msun/h', -1)]},
          {'sm': [('m_stars', 'f', 'Msun/h', -1)], 'flag': [('flag', 'i', 'None', 0)]}]


def raw_files(spec, i):
    if spec['layout'] == 'file':
        return ['snap_%03d.npz' % i]
    if spec['layout'] == 'dir':
        return ['groups_%03d' % i]
    return ['data%d_%03d.npz' % (j, i) for j in (1, 2, 3, 4)]      # data4 is never downloaded


def write_raw(spec, path, snaps=None):
    """Put the raw files of the snapshots in place (harness side)."""
    raw = os.path.join(path, 'raw')
    os.makedirs(raw, exist_ok=True)
    for i in indices(spec) if snaps is None else snaps:
        d = raw_data(spec, i)
        keys = sorted(d)
        if spec['layout'] == 'file':
            parts = [('snap_%03d.npz' % i, keys)]
        elif spec['layout'] == 'dir':
            os.makedirs(os.path.join(raw, 'groups_%03d' % i), exist_ok=True)
            parts = [('groups_%03d/p%d.npz' % (i, j), keys[j::2]) for j in range(2)]
        else:
            parts = [('data%d_%03d.npz' % (j, i), keys[j - 1::3]) for j in (1, 2, 3)]
        for f, ks in parts:
            np.savez(os.path.join(raw, f), **{k: d[k] for k in ks})


def raw_part_files(spec, i):
    """Paths (relative to raw/) of the files that make up a snapshot."""
    if spec['layout'] == 'file':
        return ['snap_%03d.npz' % i]
    if spec['layout'] == 'dir':
        return ['groups_%03d/p0.npz' % i, 'groups_%03d/p1.npz' % i]
    return ['data%d_%03d.npz' % (j, i) for j in (1, 2, 3)]


def metadata(spec):
    return {'name': spec['sim'], 'box_edge': spec['box'], 'number_snaps': len(spec['zs']), 'cosmo_name': 'Synth',
            'cosmo_omega_matter': 0.307, 'cosmo_omega_lambda': 0.693, 'cosmo_omega_baryon': 0.048,
            'cosmo_h': spec['h']}


META_DTYPE = [('index', 'i'), ('redshift', 'f'), ('redshift_min', 'f'), ('redshift_max', 'f'), ('time_start', 'f'),
              ('time_end', 'f'), ('distance_min', 'f'), ('distance_max', 'f'), ('transverse_distance_min', 'f'),
              ('transverse_distance_max', 'f')]

_cosmo_cache = {}


def snap_meta(spec):
    """Independent computation of the snapshot metadata table."""
    key = (tuple(spec['zs']), spec['h'], spec['first'])
    if key in _cosmo_cache:
        return _cosmo_cache[key]
    from astropy.cosmology import FlatLambdaCDM, z_at_value
    import astropy.units as u
    c = FlatLambdaCDM(H0=100 * spec['h'] * u.km / u.s / u.Mpc, Om0=0.307, Ob0=0.048, Tcmb0=2.7255 * u.K)
    zs = spec['zs']
    ages = [c.age(z).value for z in zs]
    edges = [(zs[0], ages[0])]
    for a, b in zip(ages, ages[1:]):
        t = (a + b) / 2
        edges.append((float(z_at_value(c.age, t * u.Gyr)), t))
    edges.append((0.0, c.age(0).value))
    m = np.zeros(len(zs), dtype=META_DTYPE)
    for k, z in enumerate(zs):
        (zmax, t0), (zmin, t1) = edges[k], edges[k + 1]
        dmin = c.comoving_distance(zmin).value * spec['h'] if zmin > 0 else 0.0
        dmax = c.comoving_distance(zmax).value * spec['h']
        m[k] = (spec['first'] + k, z, zmin, zmax, t0, t1, dmin, dmax, dmin, dmax)
    _cosmo_cache[key] = m
    return m


def write_meta(spec, path):
    np.save(os.path.join(path, 'meta.npy'), metadata(spec))
    np.save(os.path.join(path, 'meta_snaps.npy'), snap_meta(spec))


def catalogs_class(SimCatalogs, spec):
    """A simulation interface written as the documentation of SimCatalogs prescribes."""

    class SynthCatalogs(SimCatalogs):
        def __init__(self, sim, path='auto', snaps='all', updatepath=True):
            self.allsnaps = np.array(indices(spec))
            super().__init__(sim, path, snaps, updatepath)
            self.basic_fields = dict(BASIC)
            self.dm_fields = dict(DM)
            self.matter_fields = dict(MATTER[spec['mcount']])
            self.transform_keys = {'Pos': lambda x, h: x / 1000, 'Mass': lambda x, h: x * 1e10, 'sm': lambda x, h: x * h}

        def _loader(self, path, snapshot, fields):
            d = {}
            for f in raw_part_files(spec, snapshot):
                with np.load(os.path.join(path, f)) as z:
                    for k in z.files:
                        d[k] = z[k]
            n = len(d['Mass'])
            if n == 0 and spec['emptykeys']:
                return {}, 0
            return {k: d[k] for k in fields}, n

        def _get_rawsnapfiles(self, snapshot):
            return raw_files(spec, snapshot)
    return SynthCatalogs


def expected_fields(spec, basic):
    """{formatted name: (units, h dependence)} of a formatted snapshot."""
    out = {}
    for fs in [BASIC] + ([] if basic else [DM, MATTER[spec['mcount']]]):
        for subs in fs.values():
            for (nm, dt, un, hd) in subs:
                if nm[:4] != 'none':
                    out[nm] = (un, hd)
    return out


def expected_values(spec, i, basic):
    """{formatted name: values} in raw order."""
    d = raw_data(spec, i)
    h = spec['h']
    d = dict(d, Pos=d['Pos'] / 1000, Mass=d['Mass'] * 1e10, sm=d['sm'] * h)
    out = {}
    for fs in [BASIC] + ([] if basic else [DM, MATTER[spec['mcount']]]):
        for key, subs in fs.items():
            for j, (nm, dt, un, hd) in enumerate(subs):
                if nm[:4] == 'none':
                    continue
                v = d[key][:, j] if len(subs) > 1 else d[key]
                out[nm] = v.astype('f4') if fs is BASIC else v
    return out


def read_groups(path):
    """{snapshot number: {'data': {name: array}, 'units', 'h', 'cuts', 'meta'}} plus file attributes."""
    out = {}
    with h5py.File(path, 'r') as f:
        att = {k: f.attrs[k] for k in f.attrs}
        for g in f:
            if not g.startswith('Snapshot '):
                out[g] = None
                continue
            grp = f[g]
            out[int(g.split()[1])] = {
                'data': {k: grp[k][()] for k in grp if k != 'mass_cuts'},
                'units': {k: grp[k].attrs.get('units') for k in grp if k != 'mass_cuts'},
                'h': {k: grp[k].attrs.get('h dependence') for k in grp if k != 'mass_cuts'},
                'cuts': grp['mass_cuts'][()] if 'mass_cuts' in grp else None,
                'meta': grp.attrs.get('metadata')}
    return out, att


def snap_problem(spec, i, got, basic=None):
    """What is wrong with a formatted snapshot (None: nothing)."""
    if got is None:
        return 'not a snapshot group'
    names = set(got['data'])
    if basic is None:
        basic = names == set(expected_fields(spec, True))
    want = expected_fields(spec, basic)
    if names != set(want):
        return 'properties %s, expected %s' % (sorted(names), sorted(want))
    for n, (un, hd) in want.items():
        if got['units'][n] != un or got['h'][n] is None or int(got['h'][n]) != hd:
            return 'units of %s are %r, %r' % (n, got['units'][n], got['h'][n])
    exp = expected_values(spec, i, basic)
    n = spec['counts'][i - spec['first']]
    for k in want:
        if got['data'][k].size != n or (n and got['data'][k].ndim != 1):
            return '%s has shape %s for %d halos' % (k, got['data'][k].shape, n)
    if n:
        m = got['data']['mass']
        if not np.all(m[:-1] >= m[1:]):
            return 'halos are not in order of decreasing mass'
        cols = sorted(want)
        a = np.array([np.asarray(got['data'][k], dtype='f8') for k in cols])
        b = np.array([np.asarray(exp[k], dtype='f8') for k in cols])
        a = a[:, np.lexsort(a)]
        b = b[:, np.lexsort(b)]
        bad = [c for c, x, y in zip(cols, a, b) if not np.array_equal(x, y)]
        if bad:
            return 'halos differ from the raw catalogue in %s' % bad
    if got['cuts'] is None:
        return 'no mass look-up table'
    c = got['cuts']
    mass = np.asarray(got['data']['mass'], dtype='f4').ravel()
    if len(c) < 2 or not np.all(np.diff(c['min_mass']) < 0):
        return 'mass look-up table is not in decreasing order'
    for row in c:
        k = int(np.count_nonzero(mass >= row['min_mass']))
        if int(row['index']) != k:
            return 'mass look-up table says %d halos above %g, there are %d' % (row['index'], row['min_mass'], k)
    want_m = snap_meta(spec)
    want_m = want_m[want_m['index'] == i]
    if got['meta'] is None or len(np.atleast_1d(got['meta'])) != 1 or meta_problem(np.atleast_1d(got['meta']), want_m):
        return 'snapshot metadata %r, expected %r' % (got['meta'], want_m)
    return None


def meta_problem(a, b):
    if len(a) != len(b):
        return 'snapshots listed: %s, expected %s' % (list(a['index']), list(b['index']))
    for n in b.dtype.names:
        if n not in (a.dtype.names or ()):
            return 'no %s' % n
        if not np.allclose(a[n], b[n], rtol=1e-5, atol=1e-5):
            k = int(np.argmax(np.abs(a[n] - b[n])))
            return '%s of snapshot %s is %r, expected %r' % (n, a['index'][k], a[n][k], b[n][k])
    return None


# -- formatted catalogues written directly (for handlers and light cones) -------------
def write_formatted(spec, path, props, attrs=True):
    """data.hdf5 from {snapshot: {name: (values, units, h dependence, userdefined)}}, sorted by mass here."""
    fn = os.path.join(path, 'data.hdf5')
    meta = snap_meta(spec)
    with h5py.File(fn, 'w') as f:
        for k, v in metadata(spec).items():
            f.attrs[k] = v
        f.attrs['snapshots'] = meta
        for i in indices(spec):
            g = f.create_group('Snapshot %d' % i)
            mass = np.asarray(props[i]['mass'][0], dtype='f4')
            order = np.argsort(-mass, kind='stable')
            cuts = np.zeros(141, dtype=[('min_mass', 'f'), ('index', 'i')])
            cuts['min_mass'] = np.logspace(6, 20, 141)[::-1]
            for row in cuts:
                row['index'] = np.count_nonzero(mass >= row['min_mass'])
            g.create_dataset('mass_cuts', data=cuts)
            for n, (v, un, hd, ud) in props[i].items():
                g.create_dataset(n, data=np.asarray(v)[order])
                g[n].attrs['units'] = un
                g[n].attrs['h dependence'] = hd
                if ud:
                    g[n].attrs['userdefined'] = True
            g.attrs['metadata'] = meta[meta['index'] == i]
    return fn


def register(world, root, kind, sim, path):
    """Record a location the way an earlier session would have (documented 'name path' lines)."""
    fn = os.path.join(root, 'simim_resources', '.paths', {'sims': 'simpaths.txt', 'lcs': 'lcpaths.txt'}[kind])
    with core._real['open'](fn, 'a') as f:
        f.write('%s %s\n' % (sim, path))
