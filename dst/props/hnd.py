"""A reference model of a property handler (SnapHandler or LCHandler) and its file, and the operations on it."""
import os

import numpy as np

from .. import core, synth
from .common import ready, close

NAMES = ['p0', 'p1', 'p2', 'a b', 'L_CII', 'm_stars2']
UNITS = ['Msun/h', 'None', 'Lsun', 'Mpc/h', 'K km/s']
KINDS_OF_VALUE = ['f8', 'f4', 'i8', 'bool', 'u1', 'ident', 'cached', 'nan']


class UserError(Exception):
    pass


# -- the parent catalogue ----------------------------------------------------------
def gen_catalog(rng, lc=0.4, big=False):
    spec = synth.gen_spec(rng)
    if max(spec['counts']) == 0 and rng.random() < 0.9:
        spec['counts'][0] = 6
    return {'spec': spec, 'kind': 'lc' if rng.random() < lc else 'snap', 'dseed': rng.getrandbits(31),
            'snap': rng.randrange(len(spec['zs'])), 'set': rng.choice(['set1', 'my set'])}


def snap_props(spec, i, dseed, extra=True):
    """Properties of a formatted snapshot: {name: (values, units, h dependence, user defined)}."""
    k = i - spec['first']
    n = spec['counts'][k]
    r = np.random.RandomState((dseed + 104729 * k) % (2**32))
    box = spec['box']
    d = {'mass': ((10**(r.rand(n) * 6 + 8)).astype('f4'), 'Msun/h', -1, False)}
    if spec['ties'] and n > 2:
        d['mass'][0][:] = d['mass'][0][r.randint(0, max(1, n // 2), n)]
    for a in 'xyz':
        d['pos_' + a] = ((r.rand(n) * box).astype('f4'), 'Mpc/h', -1, False)
    for a in 'xyz':
        d['v_' + a] = ((r.randn(n) * 300).astype('f4'), 'km/s', 0, False)
    d['halo_id'] = (r.permutation(n).astype('i8') + 2**40 + 1000 * k, 'None', 0, False)
    d['r_hm'] = ((r.rand(n) * 90).astype('f8'), 'kpc/h', -1, False)
    d['inv'] = ((r.rand(n) * 9).astype('f4'), '(Mpc/h)^-2', 2, False)
    if extra:
        d['old_p'] = (r.rand(n).astype('f8'), 'Lsun', 0, True)
    return d


def lc_props(spec, number, dseed, n, zlo=0.2, zhi=1.0):
    r = np.random.RandomState((dseed + 15485863 * (number + 1)) % (2**32))
    d = {'mass': ((10**(r.rand(n) * 6 + 8)).astype('f4'), 'Msun/h', -1, False)}
    for a in 'xyz':
        d['pos_' + a] = (r.rand(n) * spec['box'], 'Mpc/h', -1, False)
    d['ra'] = ((r.rand(n) - 0.5) * 0.03, 'radians', 0, False)
    d['dec'] = ((r.rand(n) - 0.5) * 0.03, 'radians', 0, False)
    d['redshift'] = (np.sort(zlo + (zhi - zlo) * r.rand(n)), 'None', 0, False)
    d['halo_id'] = (r.permutation(n).astype('i8') + 2**40, 'None', 0, False)
    d['inv'] = ((r.rand(n) * 9).astype('f4'), '(Mpc/h)^-2', 2, False)
    d['old_p'] = (r.rand(n), 'Lsun', 0, True)
    return d


def write_lc(spec, path, number, props, zlo=0.2, zhi=1.0, shape='box', angle=0.03, aspect=1.0, attrs=None):
    """A finished light cone in the documented layout."""
    import h5py
    os.makedirs(path, exist_ok=True)
    fn = os.path.join(path, 'lc_%04d.hdf5' % number)
    with h5py.File(fn, 'w') as f:
        a = dict(synth.metadata(spec))
        a.update({'snapshots': synth.snap_meta(spec), 'parent sim': spec['sim'], 'minimum redshift': zlo,
                  'maximum redshift': zhi, 'shape': shape, 'start position': np.zeros(3), 'box flips': np.ones(3, dtype=int),
                  'mass cut': 0.0, 'created': '2020-01-01', 'finished': '2020-01-01', 'status_initialized': True,
                  'status_basic': True, 'status_extra_initialized': False, 'status_extra_completed': False})
        if shape in ('box', 'circle'):
            a.update({'open angle': angle, 'aspect ratio': aspect, 'position angle': 0.3})
        a.update(attrs or {})
        for k, v in a.items():
            f.attrs[k] = v
        g = f.create_group('Lightcone Full')
        b = f.create_group('Lightcone Basic')
        for n, (v, un, hd, ud) in props.items():
            g.create_dataset(n, data=v, maxshape=(None,), chunks=(2500,))
            g[n].attrs['units'] = un
            g[n].attrs['h dependence'] = hd
            if ud:
                g[n].attrs['userdefined'] = True
            elif n in ('mass', 'pos_x', 'pos_y', 'pos_z', 'ra', 'dec', 'redshift'):
                b[n] = g[n]                # the same data under two names, as the light-cone makers leave it
        ix = f.create_group('Indexing')
        z = np.zeros(100, dtype=[('redshift', 'f'), ('index', 'int')])
        z['redshift'] = (10**np.linspace(0, np.log10(21.05), 100)) - 1
        ix.create_dataset('redshift_indices', data=z)
    return fn


class Ground:
    """A data directory with a formatted simulation and a set of light cones."""

    def __init__(self, run, cfg=None, cones=3):
        cfg = cfg or run.cfg
        self.run, self.spec = run, cfg['spec']
        self.s = ready(run)
        w = run.w
        spec = self.spec
        with core.seams_off(w):
            self.simdir = os.path.join(w.base, 'sims', 'S')
            os.makedirs(self.simdir)
            self.props = {i: snap_props(spec, i, cfg['dseed']) for i in synth.indices(spec)}
            self.simfile = synth.write_formatted(spec, self.simdir, self.props)
            # the order on disk is by mass
            for i in self.props:
                o = np.argsort(-np.asarray(self.props[i]['mass'][0], dtype='f4'), kind='stable')
                self.props[i] = {k: (np.asarray(v)[o], un, hd, ud) for k, (v, un, hd, ud) in self.props[i].items()}
            synth.write_meta(spec, self.simdir)
            synth.register(w, self.s.root, 'sims', spec['sim'], self.simdir)
            self.lcdir = os.path.join(w.base, 'lcs', spec['sim'])
            os.makedirs(self.lcdir)
            synth.register(w, self.s.root, 'lcs', spec['sim'], self.lcdir)
            self.cones = {}
            if cones:
                r = np.random.RandomState(cfg['dseed'] % (2**32))
                for j in range(cones):
                    n = int(r.choice([0, 1, 4, 9, 17]))
                    self.cones[j] = lc_props(spec, j, cfg['dseed'], n)
                    write_lc(spec, os.path.join(self.lcdir, cfg.get('set', 'set1')), j, self.cones[j])
        self.set = cfg.get('set', 'set1')
        self.s.start()

    def simh(self, **kw):
        w = self.run.w
        out = w.op('SimHandler', lambda: w.mod('simim.siminterface').SimHandler(self.spec['sim'], **kw))
        return self.run.expect_ok(out, 'open', 'opening the simulation')

    def lc_file(self, j):
        return os.path.join(self.lcdir, self.set, 'lc_%04d.hdf5' % j)


def read_group(w, fn, group):
    """{name: (values, units, h dependence)} of a group, and the rest of the file as a dump."""
    import h5py
    with core.seams_off(w):
        out = {}
        with h5py.File(fn, 'r') as f:
            for k in f[group]:
                if k != 'mass_cuts':
                    d = f[group][k]
                    out[k] = (d[()], d.attrs.get('units'), d.attrs.get('h dependence'))
        return out


def same_value(a, b, tol=0):
    """Equal (values, units, h dependence)."""
    if a[1] != b[1] or a[2] is None or float(a[2]) != float(b[2]):
        return False
    x, y = np.asarray(a[0]), np.asarray(b[0])
    if x.shape != y.shape:
        return bool(x.size == 0 and y.size == 0)
    if x.dtype.kind in 'fc' or y.dtype.kind in 'fc':
        if tol:
            return close(x.astype('f8'), y.astype('f8'), tol)
        return bool(np.array_equal(x, y, equal_nan=True))
    return bool(np.array_equal(x, y))


# -- values a user's function computes ----------------------------------------------
def user_function(p, w=None, cache=None):
    """The function a user would pass: one array (or several) from its arguments."""
    def f(**kw):
        if p.get('fail') == 'raise':
            raise UserError('from the user')
        extra = kw.pop('extra', 0)
        arrays = [np.asarray(kw[a]) for a in p['args'] if np.ndim(kw[a])]
        n = len(arrays[0]) if arrays else 0
        x = np.zeros(n)
        for k, a in enumerate(p['args']):
            v = kw[a]
            x = x + (k + 1) * np.asarray(getattr(v, 'h', v), dtype='f8')
        out = []
        for j, kind in enumerate(p['kinds']):
            c = p['c'] + 17 * j + extra
            if kind == 'f8':
                v = x + c
            elif kind == 'f4':
                v = (x * 0.5 + c).astype('f4')
            elif kind == 'i8':
                v = np.arange(n, dtype='i8') * 7919 + c + 2**40
            elif kind == 'u1':
                v = ((np.arange(n) * 37 + c) % 251).astype('u1')
            elif kind == 'bool':
                v = (np.arange(n) + c) % 3 == 0
            elif kind == 'nan':
                v = np.where((np.arange(n) + c) % 2 == 0, np.nan, x)
            elif kind == 'ident':
                v = arrays[0]
            else:
                v = x * 2 + c
                if cache is not None:
                    v = cache.setdefault((j, n, c), v)
            out.append(v)
        if p.get('fail') == 'short':
            out = out[:-1] if len(out) > 1 else [out[0][:-1] if n else out[0]]
        if len(p['kinds']) == 1:
            return out[0]
        return {'list': list, 'tuple': tuple, 'array': np.array}[p['ret']](out)

    if w is None:
        return f

    def g(**kw):
        return w.point('user.fn', 'property', lambda: f(**kw))
    return g


def gen_prop(rng, have, args=None, multi=0.35, fail=0.08):
    m = rng.choice([2, 3]) if rng.random() < multi else 1
    names = rng.sample(NAMES, m)
    pool = args or ['mass', 'pos_x', 'halo_id', 'inv', 'old_p', 'mass', 'p0', 'p1']
    a = [rng.choice(pool)]
    for _ in range(rng.choice([0, 0, 1, 2])):
        b = rng.choice(pool + ['h', 'cosmo'])
        if b not in a:
            a.append(b)
    ret = rng.choice(['list', 'tuple', 'array'])
    kinds = [rng.choice(KINDS_OF_VALUE) for _ in range(m)]
    if ret == 'array' and m > 1:
        kinds = [rng.choice(['f8', 'cached', 'nan']) for _ in range(m)]
    hd = [rng.choice([0, 0, 0, -1, 2, -2]) for _ in range(m)]
    p = {'names': names, 'args': a, 'kinds': kinds, 'c': rng.randrange(1000), 'ret': ret,
         'hdep': hd if m > 1 and rng.random() < 0.5 else hd[:1],
         'units': [rng.choice(UNITS) for _ in range(m)] if m > 1 and rng.random() < 0.5 else [rng.choice(UNITS)],
         'args_h': rng.random() < 0.4, 'ret_h': rng.random() < 0.4, 'multi': m > 1 or rng.random() < 0.3}
    if rng.random() < fail:
        p['fail'] = 'raise' if rng.random() < 0.6 or m == 1 else 'short'
    return p


def make_prop(w, p, cache=None, wrap=None):
    """The galprops object a user would make."""
    gp = w.mod('simim.galprops')
    f = user_function(p, w, cache)
    if wrap is not None:
        f = wrap(f)
    if p['multi'] or len(p['names']) > 1:
        return gp.MultiProp(list(p['names']), f, list(p['args']), give_args_in_h_units=p['args_h'],
                            function_return_in_h_units=p['ret_h'], units=list(p['units']), h_dependence=list(p['hdep']))
    return gp.Prop(p['names'][0], f, list(p['args']), give_args_in_h_units=p['args_h'],
                   function_return_in_h_units=p['ret_h'], units=p['units'][0], h_dependence=p['hdep'][0])


class Bad(Exception):
    """The operation must be refused."""


class Model:
    """What one handler must hold."""

    def __init__(self, disk, h, default_h, n, extra):
        self.disk = dict(disk)
        self.mem = {}
        self.gen = set()
        self.h, self.default_h, self.n = h, default_h, n
        self.inds = np.arange(n)
        self.extra = extra
        self.fuzzy = set()           # computed here; rounding may differ until adopted
        self.fuzzyd = set()          # the same, on disk

    def copy(self):
        m = Model(self.disk, self.h, self.default_h, self.n, self.extra)
        m.mem, m.gen, m.inds, m.fuzzy = dict(self.mem), set(self.gen), self.inds, set(self.fuzzy)
        m.fuzzyd = set(self.fuzzyd)
        return m

    def names(self):
        return set(self.disk) | set(self.mem)

    def view(self, name):
        if name in self.mem:
            return self.mem[name]
        if name in self.disk:
            return self.disk[name]
        raise Bad(name)

    def value(self, name, all_inds=False, in_h=None):
        v, un, hd = self.view(name)
        v = np.asarray(v).reshape(-1)[np.arange(self.n) if all_inds else self.inds]
        if in_h is None:
            in_h = self.default_h
        if not in_h and hd != 0:
            v = v * np.float64(self.h)**float(hd)
        return v

    def evaluate(self, p, all_inds, remap, extra=0):
        kw = {}
        for a in p['args']:
            src = remap.get(a, a)
            if src in self.names():
                kw[a] = self.value(src, all_inds, p['args_h'])
            elif src in self.extra:
                kw[a] = self.extra[src]
            else:
                raise Bad('argument ' + src)
        if extra:
            kw['extra'] = extra
        try:
            vals = user_function(p)(**kw)
        except UserError:
            raise Bad('user')
        if len(p['kinds']) == 1:
            vals = [vals]
        if len(vals) != len(p['names']):
            raise Bad('short')
        out = []
        for j, v in enumerate(vals):
            hd = p['hdep'][j if len(p['hdep']) > 1 else 0]
            v = np.asarray(v)
            if not p['ret_h'] and hd != 0:
                v = v / self.h**hd
            out.append((v, p['units'][j if len(p['units']) > 1 else 0], hd))
        return out

    def make(self, p, names, overwrite, all_inds, remap, extra=0):
        if len(names) != len(p['names']):
            raise Bad('rename')
        if any(n in self.names() for n in names) and not overwrite:
            raise Bad('exists')
        vals = self.evaluate(p, all_inds, remap, extra)
        inds = np.arange(self.n) if all_inds else self.inds
        for n, (v, un, hd) in zip(names, vals):
            if len(inds) == self.n:
                full = np.array(v)
            else:
                full = np.full(self.n, np.nan, dtype=np.result_type(v.dtype, 'f4') if v.dtype.itemsize < 4 else
                               np.result_type(v.dtype, 'f8') if v.dtype.kind in 'iu' else v.dtype)
                full[inds] = v
            if n not in self.names():
                self.gen.add(n)
            self.mem[n] = (full, un, hd)
            self.fuzzy.add(n)

    def write(self, names, overwrite, dtype=None):
        for n in names:
            if n not in self.mem:
                raise Bad('not loaded')
            if n in self.disk and not overwrite:
                raise Bad('exists')
            v, un, hd = self.mem[n]
            self.disk[n] = (v if dtype is None else v.astype(dtype), un, hd)
            if n in self.fuzzy:
                self.fuzzyd.add(n)

    def load(self, names):
        for n in names:
            if n not in self.disk:
                raise Bad('not saved')
            self.mem[n] = self.disk[n]

    def unload(self, names):
        for n in names:
            self.mem.pop(n, None)

    def delete(self, names):
        for n in names:
            if n not in self.disk:
                raise Bad('not saved')
            self.disk.pop(n)
            self.mem.pop(n, None)

    def select(self, name, lo, hi, reset, in_h):
        if name is None:
            self.inds = np.arange(self.n)
            return
        v = self.value(name, True, in_h)
        i = np.nonzero((v >= lo) & (v <= hi))[0]
        self.inds = i if reset else np.intersect1d(i, self.inds)


def threshold(model, name, q, in_h):
    """A limit for a selection that no rounding can move across a value (None: there is none)."""
    if name is None or name not in model.names():
        return None
    v = np.asarray(model.value(name, True, in_h), dtype='f8')
    u = np.unique(v[np.isfinite(v)])
    if len(u) == 0:
        return 0.5
    k = int(q * (len(u) + 1))
    if k == 0:
        return float(u[0] - abs(u[0]) * 0.1 - 1e-3)
    if k >= len(u):
        return float(u[-1] + abs(u[-1]) * 0.1 + 1e-3)
    a, b = u[k - 1], u[k]
    if b - a < 1e-5 * max(abs(a), abs(b)):
        return None
    return float((a + b) / 2)


def problem(w, hd, m, fn=None, group=None, pick=None, disk=True, stale=False, before=None):
    """What disagrees between a handler and its model (None: nothing)."""
    lists = {}
    for k in ('any', 'loaded', 'saved', 'generated'):
        got = hd.extract_keys(k)
        lists[k] = list(got)
        if isinstance(got, list):
            got.append('mine')          # the caller's list is the caller's
    for k, l in lists.items():
        if len(set(l)) != len(l):
            return 'the list of %s properties has duplicates: %s' % (k, l)
    if not stale and set(lists['saved']) != set(m.disk):
        return 'saved properties listed %s, on disk %s' % (sorted(lists['saved']), sorted(m.disk))
    if set(lists['loaded']) != set(m.mem):
        return 'loaded properties listed %s, expected %s' % (sorted(lists['loaded']), sorted(m.mem))
    if not stale and set(lists['any']) != m.names():
        return 'properties listed %s, expected %s' % (sorted(lists['any']), sorted(m.names()))
    if not (set(m.mem) - set(m.disk)) <= set(lists['generated']) or not set(lists['generated']) <= m.names():
        return 'generated properties listed %s; in memory only %s, all %s' % (
            sorted(lists['generated']), sorted(set(m.mem) - set(m.disk)), sorted(m.names()))
    if hd.nhalos_active != len(m.inds) or not np.array_equal(np.asarray(hd.inds_active), m.inds):
        return 'active halos %s, expected %s' % (list(hd.inds_active), list(m.inds))
    if disk and fn is not None:
        got = read_group(w, fn, group)
        if set(got) != set(m.disk):
            return 'the file holds %s, expected %s' % (sorted(got), sorted(m.disk))
        for k in m.disk:
            if not same_value(got[k], m.disk[k], 5e-6 if k in m.fuzzyd else 0):
                return 'the file holds another %s: %r, expected %r' % (k, got[k], m.disk[k])
    return None


def adopt(run, hd, m, fn, group, dtype=None):
    """Compare freshly computed values with tolerance, then hold the handler to exactly those."""
    w = run.w
    for n in sorted(m.fuzzy | m.fuzzyd):
        if n in m.fuzzy and n in m.mem:
            out = w.op('return %s' % n, lambda: hd.return_property(n, use_all_inds=True, in_h_units=True))
            got = run.expect_ok(out, 'return', 'returning %s' % n)
            v, un, h = m.mem[n]
            run.check(same_value((got, un, h), (v, un, h), 5e-6), 'values',
                      lambda: '%s was given values %r, it returns %r' % (n, v, got))
            m.mem[n] = (np.array(got), un, h)
        if n in m.fuzzyd and n in m.disk:
            got = read_group(w, fn, group)[n]
            if n in m.mem and np.asarray(got[0]).dtype == m.mem[n][0].dtype:
                run.check(same_value(got, m.mem[n]), 'values', lambda: '%s is %r in memory but %r on disk' % (n, m.mem[n], got))
            m.disk[n] = got
    m.fuzzy.clear()
    m.fuzzyd.clear()


def choose(run, hd, good):
    """Of the models whose lists fit a handler, the one whose values fit too."""
    for m in good:
        for n in sorted(m.mem):
            out = run.w.op('return %s' % n, lambda: hd.return_property(n, use_all_inds=True, in_h_units=True))
            v, un, h = m.mem[n]
            if not out.ok or not same_value((out.value, hd.properties_units[n], hd.properties_h_dependence[n]), (v, un, h),
                                            5e-6 if n in m.fuzzy else 0):
                break
        else:
            return m
    return good[0]


def returned(run, hd, m, name, all_inds, in_h, tol=2e-6):
    """Check one returned property (a fault-free read)."""
    out = run.w.op('return %s' % name, lambda: hd.return_property(name, use_all_inds=all_inds, in_h_units=in_h))
    if name not in m.names():
        run.check(not out.ok, 'absent', lambda: 'a property that does not exist is returned: %s' % name)
        return
    got = run.expect_ok(out, 'return', 'returning %s' % name)
    v = m.view(name)
    want = m.value(name, all_inds, in_h)
    exact = v[2] == 0 or (m.default_h if in_h is None else in_h)
    run.check(same_value((got, '', 0), (want, '', 0), 0 if exact else tol), 'values',
              lambda: '%s (all %s, in h units %s): returned %r, expected %r' % (name, all_inds, in_h, got, want))
    run.check(hd.properties_units[name] == v[1] and float(hd.properties_h_dependence[name]) == float(v[2]), 'units',
              lambda: '%s has units %r and h dependence %r, expected %r and %r' % (
                  name, hd.properties_units[name], hd.properties_h_dependence[name], v[1], v[2]))
