"""Simulated publishers of the supported simulations: file listings, metadata services and
raw halo catalogues in the published formats, together with what the formatted catalogue must
hold for them."""
import io
import json
import os
import random

import h5py
import numpy as np

from . import core, net, synth

UM = {'UniverseMachine-BolshoiPlanck': (178, 'halos.as.arizona.edu/UniverseMachine/DR1/SFR_ASCII/', 250),
      'UniverseMachine-SMDPL': (118, 'halos.as.arizona.edu/UniverseMachine/DR1/SMDPL_SFR/', 400),
      'UniverseMachine-MDPL2': (126, 'halos.as.arizona.edu/UniverseMachine/DR1/MDPL2_SFR/', 1000)}
UCHUU = ('UniverseMachine-uchuu', 46, 'skun.iaa.csic.es/SUsimulations/UchuuDR2/Uchuu_UM/')
ILL = {'Illustris-3': 136, 'Illustris-1': 136, 'TNG100-3': 100, 'TNG300-3-Dark': 100}

ASCII = [('id', 'i'), ('descid', 'i'), ('upid', 'i'), ('flags', 'i'), ('uparent_dist', 'f'),
         ('x', 'f'), ('y', 'f'), ('z', 'f'), ('vx', 'f'), ('vy', 'f'), ('vz', 'f'),
         ('m', 'f'), ('v', 'f'), ('mp', 'f'), ('vmp', 'f'), ('r', 'f'), ('rank1', 'f'), ('rank2', 'f'), ('ra', 'f'),
         ('rarank', 'f'), ('sm', 'f'), ('icl', 'f'), ('sfr', 'f'), ('obs_sm', 'f'), ('obs_sfr', 'f'), ('obs_ssfr', 'f'),
         ('smhm', 'f'), ('obs_uv', 'f')]
BINARY = np.dtype([('id', 'i8'), ('descid', 'i8'), ('upid', 'i8'), ('flags', 'i4'), ('uparent_dist', 'f4'),
                   ('pos', 'f4', (6,)), ('vmp', 'f4'), ('lvmp', 'f4'), ('mp', 'f4'), ('m', 'f4'), ('v', 'f4'),
                   ('r', 'f4'), ('rank1', 'f4'), ('rank2', 'f4'), ('ra', 'f4'), ('rarank', 'f4'), ('a_uv', 'f4'),
                   ('sm', 'f4'), ('icl', 'f4'), ('sfr', 'f4'), ('obs_sm', 'f4'), ('obs_sfr', 'f4'), ('obs_uv', 'f4'),
                   ('empty', 'f4')], align=True)

UCHUU_FILES = {1: ['id', 'upid', 'Mvir', 'sm', 'icl', 'sfr', 'obs_sm', 'obs_sfr', 'obs_uv'], 2: ['x', 'y', 'z'],
               3: ['desc_id', 'vx', 'vy', 'vz', 'Mpeak', 'Vmax_Mpeak', 'vmax', 'A_UV'], 5: ['ICHL']}

# raw name -> [(formatted name, units, h dependence, factor(h))]; the formatted value is raw * factor
ONE = lambda h: 1.0                                                    # noqa: E731
H = lambda h: h                                                        # noqa: E731
MPC = lambda h: 1e-3                                                   # noqa: E731
E10 = lambda h: 1e10                                                   # noqa: E731
UM_COMMON = {'id': [('halo_id', 'None', 0, ONE)], 'descid': [('descendent_id', 'None', 0, ONE)],
             'upid': [('parent_id', 'None', 0, ONE)], 'v': [('vmax', 'km/s', 0, ONE)],
             'vmp': [('vmax_peak', 'km/s', 0, ONE)], 'r': [('r', 'Mpc/h', -1, MPC)],
             'rank1': [('Rank1', 'None', 0, ONE)], 'sm': [('m_stars', 'Msun/h', -1, H)],
             'icl': [('icl', 'Msun/h', -1, H)], 'sfr': [('sfr', 'Msun/yr', 0, ONE)],
             'obs_sm': [('m_stars_obs', 'Msun/h', -1, H)], 'obs_sfr': [('sfr_obs', 'Msun/yr', 0, ONE)],
             'obs_uv': [('phot_uv_obs', 'mag', 0, ONE)]}
UCHUU_MAP = {'x': [('pos_x', 'Mpc/h', -1, ONE)], 'y': [('pos_y', 'Mpc/h', -1, ONE)], 'z': [('pos_z', 'Mpc/h', -1, ONE)],
             'vx': [('v_x', 'km/s', 0, ONE)], 'vy': [('v_y', 'km/s', 0, ONE)], 'vz': [('v_z', 'km/s', 0, ONE)],
             'Mvir': [('mass', 'Msun/h', -1, ONE)], 'id': [('halo_id', 'None', 0, ONE)],
             'desc_id': [('descendent_id', 'None', 0, ONE)], 'upid': [('parent_id', 'None', 0, ONE)],
             'vmax': [('vmax', 'km/s', 0, ONE)], 'Mpeak': [('mass_peak', 'Msun/h', -1, ONE)],
             'Vmax_Mpeak': [('vmax_peak', 'km/s', 0, ONE)], 'sm': [('m_stars', 'Msun/h', -1, H)],
             'icl': [('icl', 'Msun/h', -1, H)], 'sfr': [('sfr', 'Msun/yr', 0, ONE)],
             'obs_sm': [('m_stars_obs', 'Msun/h', -1, H)], 'obs_sfr': [('sfr_obs', 'Msun/yr', 0, ONE)],
             'obs_uv': [('phot_uv_obs', 'mag', 0, ONE)], 'A_UV': [('uv_attenuation', 'mag', 0, ONE)]}


def _many(names, units, hd, f):
    return [(n, units, hd, f) for n in names.split()]


ILL_BASIC = {'SubhaloPos': _many('pos_x pos_y pos_z', 'Mpc/h', -1, MPC),
             'SubhaloHalfmassRad': _many('r_hm', 'Mpc/h', -1, MPC), 'SubhaloMass': _many('mass', 'Msun/h', -1, E10),
             'SubhaloVel': _many('v_x v_y v_z', 'km/s', 0, ONE)}
ILL_DM = {'SubhaloCM': _many('cm_x cm_y cm_z', 'Mpc/h', -1, MPC),
          'SubhaloMassInMaxRad': _many('mass_maxr', 'Msun/h', -1, E10),
          'SubhaloSpin': _many('spin_x spin_y spin_z', 'Mpc/h km/s', -1, MPC),
          'SubhaloVelDisp': _many('vdisp', 'km/s', 0, ONE), 'SubhaloVmax': _many('vmax', 'km/s', 0, ONE),
          'SubhaloVmaxRad': _many('r_vmax', 'Mpc/h', -1, MPC)}
T = 'm_gas%s m_dm%s none%s m_tracers%s m_stars_wind%s m_bh%s'
ILL_MATTER = {'SubhaloBHMass': _many('bhmass', 'Msun/h', -1, E10),
              'SubhaloBHMdot': _many('bhmdot', 'Msun/h / (Gyr/h)', 0, lambda h: 1e10 / 0.978),
              'SubhaloGasMetallicity': _many('met', 'None', 0, ONE),
              'SubhaloGasMetallicityHalfRad': _many('met_hr', 'None', 0, ONE),
              'SubhaloGasMetallicityMaxRad': _many('met_maxr', 'None', 0, ONE),
              'SubhaloMassType': _many(T % (('',) * 6), 'Msun/h', -1, E10),
              'SubhaloMassInHalfRad': _many('mass_hr', 'Msun/h', -1, E10),
              'SubhaloMassInHalfRadType': _many(T % (('_hr',) * 6), 'Msun/h', -1, E10),
              'SubhaloMassInMaxRadType': _many(T % (('_maxr',) * 6), 'Msun/h', -1, E10),
              'SubhaloMassInRad': _many('mass_2hr', 'Msun/h', -1, E10),
              'SubhaloMassInRadType': _many(T % (('_2hr',) * 6), 'Msun/h', -1, E10),
              'SubhaloSFR': _many('sfr', 'Msun/yr', 0, ONE), 'SubhaloSFRinHalfRad': _many('sfr_hr', 'Msun/yr', 0, ONE),
              'SubhaloSFRinMaxRad': _many('sfr_maxr', 'Msun/yr', 0, ONE),
              'SubhaloSFRinRad': _many('sfr_2hr', 'Msun/yr', 0, ONE),
              'SubhaloStarMetallicity': _many('met_stellar', 'None', 0, ONE),
              'SubhaloStarMetallicityHalfRad': _many('met_stellar_hr', 'None', 0, ONE),
              'SubhaloStarMetallicityMaxRad': _many('met_stellar_maxr', 'None', 0, ONE),
              'SubhaloStellarPhotometrics': _many('phot_U phot_B phot_V phot_K phot_g phot_r phot_i phot_z', 'mag', 0, ONE)}
EL = 'H He C N O Ne Mg Si Fe Other'.split()
TNG_MATTER = {'SubhaloGasMetalFractions': _many(' '.join('met' + e for e in EL), 'None', 0, ONE),
              'SubhaloGasMetalFractionsHalfRad': _many(' '.join('met%s_hr' % e for e in EL), 'None', 0, ONE),
              'SubhaloGasMetalFractionsMaxRad': _many(' '.join('met%s_maxr' % e for e in EL), 'None', 0, ONE)}


class Site:
    """cfg: sim, seed, snaps (those with published content), counts, chunks, perm (listing order seed)."""

    def __init__(self, cfg):
        self.cfg, self.sim = cfg, cfg['sim']
        self.kind = 'ill' if self.sim in ILL else 'uchuu' if self.sim == UCHUU[0] else \
            'test' if self.sim == '_testbox' else 'um'
        self.n = ILL[self.sim] if self.kind == 'ill' else UCHUU[1] if self.kind == 'uchuu' else \
            3 if self.kind == 'test' else UM[self.sim][0]
        self.all = [i for i in range(self.n) if not (self.sim == 'Illustris-1' and i in (53, 55))]
        r = np.random.RandomState(cfg['seed'])
        if self.kind == 'uchuu':
            # two-decimal redshifts, some above 10 (lexical and numerical order differ)
            zs = np.round(np.sort(r.choice(np.arange(0, 1400), self.n, replace=False))[::-1] / 100.0, 2)
            self.names = ['Uchuu_UM_z%sp%s_data1.h5' % tuple(('%.2f' % z).split('.')) for z in zs]
            self.z = [float('%.2f' % z) for z in zs]
        elif self.kind == 'um':
            a = np.sort(r.choice(np.arange(50000, 1100000), self.n, replace=False)) / 1e6
            ext = 'txt' if self.ascii else 'bin'
            self.names = ['sfr_catalog_%.6f.%s' % (x, ext) for x in a]
            self.z = [1 / float('%.6f' % x) - 1 for x in a]
            if self.z[-1] < 0:              # the published scale factors slightly above 1 stay below z=0 here
                s = float('%.6f' % a[-1])
                a = a / s
                self.names = ['sfr_catalog_%.6f.%s' % (x, ext) for x in a]
                self.z = [1 / float('%.6f' % x) - 1 for x in a]
        elif self.kind == 'test':
            self.names = ['sfr_catalog_0.055623.txt', 'sfr_catalog_0.506185.txt', 'sfr_catalog_0.994717.txt']
            self.z = [1 / float(n[12:20]) - 1 for n in self.names]
        else:
            zs = np.sort(r.uniform(0, 14, self.n))[::-1]
            self.z = [float(z) for z in zs]
            self.names = None
        self.h = {'ill': 0.704, 'uchuu': 0.6775, 'um': 0.678, 'test': 0.678}[self.kind]
        self.box = {'ill': 75.0, 'uchuu': 2000, 'test': 10}.get(self.kind) or UM[self.sim][2]
        self.chunks = cfg.get('chunks', 2)
        self._cache = {}

    @property
    def ascii(self):
        return self.sim in ('UniverseMachine-BolshoiPlanck', '_testbox')

    # -- raw content --------------------------------------------------------------
    def count(self, i):
        return self.cfg['counts'][i % len(self.cfg['counts'])]

    def raw(self, i):
        """{raw field: array} of a snapshot."""
        n = self.count(i)
        r = np.random.RandomState((self.cfg['seed'] * 31 + i * 7 + 1) % 2**32)
        f = lambda *s: (r.rand(*s) * 100 + 0.5).astype('f4')               # noqa: E731
        if self.kind in ('um', 'test'):
            if self.ascii:
                d = {k: (f(n) if t == 'f' else r.randint(0, 10**6, n).astype('i4')) for k, t in ASCII}
                for k in 'xyz':
                    d[k] = (r.rand(n) * self.box).astype('f4')
                d['m'] = (10**(r.rand(n) * 4 + 9)).astype('f4')
                for k, t in ASCII:                       # what the published text can say
                    if t == 'f':
                        d[k] = np.array([np.float32('%.6e' % x) for x in d[k]], dtype='f4')
                return d
            d = {}
            for k in BINARY.names:
                t = BINARY[k]
                d[k] = r.randint(0, 10**6, n).astype(t) if t.kind == 'i' else \
                    (f(n, 6) if k == 'pos' else f(n))
            d['flags'] = (r.rand(n) < 0.25).astype('i4') * 16
            d['m'] = (10**(r.rand(n) * 4 + 9)).astype('f4')
            return d
        if self.kind == 'uchuu':
            d = {}
            for df, ks in UCHUU_FILES.items():
                for k in ks:
                    d[k] = r.randint(0, 10**6, n).astype('i4') if k in ('id', 'upid', 'desc_id') else f(n)
            d['Mvir'] = (10**(r.rand(n) * 4 + 9)).astype('f4')
            return d
        d = {}
        for k, subs in {**self.fields(True), **self.fields(False)}.items():
            d[k] = f(n) if len(subs) == 1 else f(n, len(subs))
        d['SubhaloMass'] = (10**(r.rand(n) * 4 - 1)).astype('f4')
        if 'SubhaloFlag' in d:
            d['SubhaloFlag'] = r.randint(0, 2, n).astype('i4')
        return d

    def fields(self, basic):
        if self.kind == 'ill':
            out = dict(ILL_BASIC)
            tng = self.sim.startswith('TNG')
            if tng and not self.sim.endswith('Dark'):
                out['SubhaloFlag'] = [('flag', 'none', 0, ONE)]
            if not basic:
                out.update(ILL_DM)
                if not self.sim.endswith('Dark'):
                    out.update(ILL_MATTER)
                    if tng:
                        out.update(TNG_MATTER)
            return out
        if self.kind == 'uchuu':
            if basic:
                return {k: UCHUU_MAP[k] for k in ('x', 'y', 'z', 'vx', 'vy', 'vz', 'Mvir')}
            return UCHUU_MAP
        if self.ascii:
            mf = H if self.sim == 'UniverseMachine-BolshoiPlanck' else ONE
            out = {c: [('pos_' + c, 'Mpc/h', -1, ONE)] for c in 'xyz'}
            out.update({'v' + c: [('v_' + c, 'km/s', 0, ONE)] for c in 'xyz'})
            out['m'] = [('mass', 'Msun/h', -1, mf)]
            if not basic:
                out.update(UM_COMMON)
                out['mp'] = [('mass_peak', 'Msun/h', -1, mf)]
                out['obs_ssfr'] = [('ssfr_obs', '?', 0, ONE)]
                out['smhm'] = [('stellar_to_halo_mass_ratio', 'None', 0, ONE)]
            return out
        out = {'pos': _many('pos_x pos_y pos_z', 'Mpc/h', -1, ONE) + _many('v_x v_y v_z', 'km/s', 0, ONE),
               'm': [('mass', 'Msun/h', -1, ONE)]}
        if not basic:
            out.update(UM_COMMON)
            out['mp'] = [('mass_peak', 'Msun/h', -1, ONE)]
            out['a_uv'] = [('uv_attenuation', 'mag', 0, ONE)]
        return out

    def files(self, i):
        """{raw file (relative to raw/): bytes} of a snapshot."""
        if i in self._cache:
            return self._cache[i]
        d = self.raw(i)
        out = {}
        if self.kind == 'test':
            for base in (os.path.join(os.path.dirname(__import__('simim').__file__), 'resources', '_testbox'),):
                with core._real['open'](os.path.join(base, self.names[i]), 'rb') as g:
                    out[self.names[i]] = g.read()
        elif self.kind == 'um' and self.ascii:
            lines = ['#id descid upid ...']
            for j in range(self.count(i)):
                lines.append(' '.join('%d' % d[k][j] if t == 'i' else '%.6e' % d[k][j] for k, t in ASCII))
            out[self.names[i]] = ('\n'.join(lines) + '\n').encode()
        elif self.kind == 'um':
            a = np.zeros(self.count(i), dtype=BINARY)
            for k in BINARY.names:
                a[k] = d[k]
            out[self.names[i]] = a.tobytes()
        elif self.kind == 'uchuu':
            for df, ks in UCHUU_FILES.items():
                out[self.names[i].replace('data1', 'data%d' % df)] = h5bytes({k: d[k] for k in ks})
        else:
            n = self.count(i)
            # files of uneven size, now and then one without subhalos (the first has some, as real ones do)
            r = random.Random('%d chunks %d' % (self.cfg['seed'], i))
            cuts = sorted(r.choice([r.randint(min(n, 1), n), n, -(-n * c // self.chunks)]) for c in range(1, self.chunks))
            if r.random() < 0.3 and len(cuts) > 1:
                cuts[1] = cuts[0]
            edges = [0] + [max(c, min(n, 1)) for c in cuts] + [n]
            pre = 'fof_subhalo_tab' if self.sim.startswith('TNG') else 'groups'
            for c in range(self.chunks):
                lo, hi = edges[c], edges[c + 1]
                out['groups_%03d/%s_%03d.%d.hdf5' % (i, pre, i, c)] = h5bytes(
                    {'Subhalo/' + k: v[lo:hi] for k, v in d.items()} if hi > lo else {},
                    {'Nsubgroups_Total': n, 'NumFiles': self.chunks, 'Nsubgroups_ThisFile': hi - lo})
        self._cache[i] = out
        return out

    def needed(self, i):
        """The files an ordinary download brings."""
        return {f: b for f, b in self.files(i).items() if not (self.kind == 'uchuu' and '_data5' in f)}

    # -- formatted catalogue ---------------------------------------------------------
    def expected(self, i, basic):
        """{formatted name: (values, units, h dependence)} in raw order; flagged entries removed."""
        if self.kind == 'test':
            d = read_ascii(self.files(i)[self.names[i]])
        else:
            d = self.raw(i)
        if self.kind == 'um' and not self.ascii:
            keep = (d['flags'] & 16) != 16
            d = {k: v[keep] for k, v in d.items()}
        out = {}
        for key, subs in self.fields(basic).items():
            for j, (nm, un, hd, f) in enumerate(subs):
                if nm.startswith('none'):
                    continue
                v = d[key][:, j] if len(subs) > 1 else d[key]
                if v.dtype.kind == 'f':
                    v = np.asarray(v, dtype='f8') * f(self.h)
                out[nm] = (v, un, hd)
        return out

    def problem(self, i, got, basic):
        """What is wrong with the formatted snapshot (None: nothing)."""
        exp = self.expected(i, basic)
        if set(got['data']) != set(exp):
            return 'properties %s, expected %s' % (sorted(got['data']), sorted(exp))
        for k, (v, un, hd) in exp.items():
            if got['units'][k] != un or int(got['h'][k]) != hd:
                return 'units of %s are %r and %r, published are %r and %r' % (k, got['units'][k], got['h'][k], un, hd)
        m = got['data']['mass']
        n = len(exp['mass'][0])
        for k in exp:
            if got['data'][k].size != n:
                return '%s has %d values for %d halos' % (k, got['data'][k].size, n)
        if n:
            if not np.all(m[:-1] >= m[1:]):
                return 'halos are not in order of decreasing mass'
            # match halos by mass, positions breaking ties
            a = np.lexsort((got['data']['pos_x'], m))
            b = np.lexsort((exp['pos_x'][0], exp['mass'][0].astype('f4')))
            for k in exp:
                x, y = np.asarray(got['data'][k])[a], exp[k][0][b]
                if not np.allclose(np.asarray(x, 'f8'), np.asarray(y, 'f8'), rtol=2e-6, atol=1e-30):
                    return '%s differs from the published catalogue' % k
        return None

    # -- metadata -----------------------------------------------------------------------
    def metadata(self):
        m = {'name': self.sim, 'box_edge': self.box, 'cosmo_h': self.h}
        m.update({'cosmo_omega_matter': {'uchuu': 0.3089, 'ill': 0.2726}.get(self.kind, 0.307),
                  'cosmo_omega_lambda': {'uchuu': 0.6911, 'ill': 0.7274}.get(self.kind, 0.693),
                  'cosmo_omega_baryon': {'uchuu': 0.0486, 'ill': 0.0456}.get(self.kind, 0.048)})
        return m

    def snap_meta(self, snaps):
        """Independent computation of the metadata table of the snapshots."""
        snaps = sorted(snaps)
        zs = [self.z[i] for i in snaps]
        m = self.metadata()
        return meta_table(snaps, zs, m['cosmo_h'], m['cosmo_omega_matter'], m['cosmo_omega_baryon'])

    # -- publication ---------------------------------------------------------------------
    def listing(self, rng):
        def make(short=None):
            names = list(self.names)
            if self.kind == 'uchuu':
                names += [n.replace('data1', d) for n in self.names[:5] for d in ('data2', 'data3')]
            rng.shuffle(names)
            if short is not None:
                names = names[:int(len(names) * short)]
                if self.kind == 'uchuu':      # a page cut short
                    keep = set(names)
                    if all(n in keep for n in self.names):
                        names.remove(self.names[0])
            rows = ['<tr><td><a href="%s">%s</a></td><td align="right"> 2019-01-0%d 12:00 </td></tr>' %
                    (n, n, 1 + j % 9) for j, n in enumerate(names)]
            return ('<html><body><table>\n' + '\n'.join(rows) + '\n</table></body></html>').encode()
        return make

    def publish(self, world):
        srv = net.Server()
        world.net = srv
        rng = world.entropy
        if self.kind == 'um':
            u = UM[self.sim][1]
            srv.put_listing(u, self.listing(rng))
            for i in self.cfg['snaps']:
                for f, b in self.files(i).items():
                    srv.put(u + f, b)
        elif self.kind == 'uchuu':
            u = UCHUU[2]
            srv.put_listing(u + 'SFR/', self.listing(rng))
            for i in self.cfg['snaps']:
                for f, b in self.files(i).items():
                    srv.put(u + ('SFH/' if '_data5' in f else 'SFR/') + f, b)
        elif self.kind == 'ill':
            u = 'www.tng-project.org/api/%s' % self.sim
            m = self.metadata()
            info = {'name': self.sim, 'boxsize': self.box * 1000, 'num_snapshots': len(self.all),
                    'cosmology': 'WMAP-7', 'omega_0': m['cosmo_omega_matter'], 'omega_L': m['cosmo_omega_lambda'],
                    'omega_B': m['cosmo_omega_baryon'], 'hubble': self.h, 'num_files_groupcat': self.chunks}

            def snaps(short=None):
                l = [{'number': i, 'redshift': self.z[i]} for i in self.all]
                rng.shuffle(l)
                if short is not None:
                    l = l[:int(len(l) * short)]
                return json.dumps(l).encode()
            srv.put(u + '/', json.dumps(info).encode())
            srv.put_listing(u + '/snapshots', snaps)
            for i in self.cfg['snaps']:
                srv.put(u + '/files/groupcat-%d/' % i, b'<html>list</html>')
                for f, b in self.files(i).items():
                    srv.put(u + '/files/' + os.path.basename(f), b)
            world.wget = lambda argv: self.wget(world, argv)
        return srv

    def wget(self, w, argv):
        """wget -r -l 1 -A hdf5 -nd [-nc] -P DIR LISTING"""
        dst, url, nc, i = '.', None, False, 0
        while i < len(argv):
            a = argv[i]
            if a in ('-P', '-e', '-l', '-A', '-t', '-T', '-o', '-a', '-w'):
                if a == '-P':
                    dst = argv[i + 1]
                i += 2
                continue
            if a.startswith('--directory-prefix='):
                dst = a.split('=', 1)[1]
            elif a in ('-nc', '--no-clobber'):
                nc = True
            elif not a.startswith('-'):
                url = a
            i += 1
        if url is None:
            return 1
        u = url.split('?')[0]
        r = net._request(w, u)
        if r[0] in ('refused', 'timeout'):
            return 4
        if r[0] >= 400 or r[1] == net.ERRPAGE:
            return 8
        try:
            snap = int(u.rstrip('/').split('groupcat-')[1])
        except (IndexError, ValueError):
            return 8
        base = u.split('/files/')[0] + '/files/'
        rc = 0
        for f in sorted(self.files(snap)):
            nm = os.path.basename(f)
            out = os.path.join(dst, nm)
            if os.path.exists(out):
                if nc:
                    continue
                k = 1
                while os.path.exists('%s.%d' % (out, k)):
                    k += 1
                out = '%s.%d' % (out, k)
            r = net._request(w, base + nm)
            if r[0] in ('refused', 'timeout'):
                rc = 4
                continue
            if r[0] >= 400:
                rc = 8
                continue
            body = net._Body(w, r[1], base + nm)
            try:
                os.makedirs(dst, exist_ok=True)
                with open(out, 'wb') as g:
                    while True:
                        b = body.read(4096)
                        if not b:
                            break
                        g.write(b)
            except ConnectionResetError:
                rc = 4                       # gave up on this file: what arrived stays
            except OSError:
                return 3
        return rc

    # -- the real interface -----------------------------------------------------------------
    def open(self, run, snaps, cls='catalogue-fails', op=None, path='auto'):
        w = run.w

        def make():
            si = w.mod('simim.siminterface')
            k = dict(snaps=snaps if snaps == 'all' else list(snaps), path=path)
            if self.kind == 'ill':
                return si.IllustrisCatalogs(self.sim, 'key', **k)
            if self.kind == 'uchuu':
                return si.UchuuCatalogs(self.sim, **k)
            return si.UniversemachineCatalogs(self.sim, **k)
        if op is not None:
            return run.call('catalog', make, op)
        out = w.op('catalog', make)
        return run.expect_ok(out, cls, 'opening the catalogue without faults')

    def urls(self, i):
        base = {'um': 'UniverseMachine', 'uchuu': 'SFR/', 'ill': '/files/', 'test': ''}[self.kind]
        return base


def h5bytes(data, header=None):
    bio = io.BytesIO()
    with h5py.File(bio, 'w') as f:
        for k in sorted(data):
            f.create_dataset(k, data=data[k])
        if header is not None:
            g = f.create_group('Header')
            for k in sorted(header):
                g.attrs[k] = np.int32(header[k])
    return bio.getvalue()


def read_ascii(b):
    rows = [l.split() for l in b.decode().splitlines() if l.strip() and not l.startswith('#')]
    return {k: np.array([r[j] for r in rows], dtype='f8').astype('f4' if t == 'f' else 'i4') for j, (k, t) in enumerate(ASCII)}


_tables = {}


def meta_table(idx, zs, h, om, ob):
    key = (tuple(idx), tuple(zs), h, om, ob)
    if key in _tables:
        return _tables[key]
    from astropy.cosmology import FlatLambdaCDM
    import astropy.units as u
    c = FlatLambdaCDM(H0=100 * h * u.km / u.s / u.Mpc, Om0=om, Ob0=ob, Tcmb0=2.7255 * u.K)
    zs = np.array(zs, dtype='f8')
    grid = np.expm1(np.linspace(0, np.log1p(zs.max() + 0.1), 400))
    a = c.age(zs).value
    m = np.zeros(len(zs), dtype=synth.META_DTYPE)
    te = [a[0]] + [(x + y) / 2 for x, y in zip(a, a[1:])] + [c.age(0).value]
    z = np.interp(-np.array(te[1:-1]), -c.age(grid).value, grid)
    for k in range(6):                       # Newton on age(z) = t
        if len(z):
            z = z + (c.age(z).value - np.array(te[1:-1])) * (c.H(z).to(1 / u.Gyr).value * (1 + z))
    ze = [zs[0]] + [float(x) for x in z] + [0.0]
    dist = [float(x) * h for x in c.comoving_distance(np.array(ze)).value]
    for k in range(len(zs)):
        d = [dist[k + 1], dist[k]]
        m[k] = (idx[k], zs[k], ze[k + 1], ze[k], te[k], te[k + 1], d[0], d[1], d[0], d[1])
    _tables[key] = m
    return m


def gen_site(rng, kinds=('um', 'uchuu', 'ill', 'test'), nsnaps=(1, 3)):
    kind = rng.choice(kinds)
    sim = {'um': rng.choice(sorted(UM)), 'uchuu': UCHUU[0], 'ill': rng.choice(sorted(ILL)), 'test': '_testbox'}[kind]
    n = {'um': UM.get(sim, (0,))[0], 'uchuu': 46, 'ill': ILL.get(sim, 0), 'test': 3}[kind]
    pool = [i for i in range(n) if not (sim == 'Illustris-1' and i in (53, 55))]
    snaps = sorted(rng.sample(pool, min(len(pool), rng.randint(*nsnaps))))
    if rng.random() < 0.3 and 0 not in snaps:
        snaps[0] = 0
    lo = 0
    return {'sim': sim, 'seed': rng.getrandbits(31), 'snaps': sorted(set(snaps)),
            'counts': [rng.choice([lo, 1, 5, 30, 200]) for _ in range(3)], 'chunks': rng.choice([1, 2, 3, 4])}
