HND = '_handlers.py'
RAWF = 'siminterface/_rawsiminterface.py'
UM = 'siminterface/universemachine.py'
ILD = 'siminterface/_illustris_datahandling.py'
ILL = 'siminterface/illustris.py'
SIM = 'siminterface/simhandler.py'
LCH = 'lightcone/lchandler.py'
LCM = 'lightcone/lcmaker.py'
INS = 'instrument/instrument.py'

CAT = r'''
from simim.siminterface._rawsiminterface import SimCatalogs
class Cat(SimCatalogs):
    """A simulation with two snapshots, whose raw data are npz files."""
    def __init__(self, path, snaps='all'):
        self.allsnaps = np.arange(2)
        super().__init__('TNG100-1', path, snaps, updatepath=False)
        self.basic_fields = {'Pos': [('pos_x', 'f', 'Mpc/h', -1), ('pos_y', 'f', 'Mpc/h', -1), ('pos_z', 'f', 'Mpc/h', -1)],
                             'Mass': [('mass', 'f', 'Msun/h', -1)]}
        self.dm_fields = {'id': [('halo_id', 'i', 'None', 0)]}
        self.matter_fields = {'multi': [('m_gas', 'f', 'Msun/h', -1), ('none', 'f', 'Msun/h', -1), ('m_dm', 'f', 'Msun/h', -1)]}
    def _loader(self, path, snapshot, fields):
        with np.load(os.path.join(path, 'snap_%d.npz' % snapshot)) as z:
            return {k: z[k] for k in fields}, len(z['Mass'])
    def _get_rawsnapfiles(self, snapshot):
        return ['snap_%d.npz' % snapshot]
def raw(masses):
    path = os.path.join(SCRATCH, 'raw sim')
    os.makedirs(os.path.join(path, 'raw'))
    r = np.random.RandomState(1)
    for i, m in enumerate(masses):
        m = np.asarray(m, dtype='f4')
        np.savez(os.path.join(path, 'raw', 'snap_%d.npz' % i), Pos=r.rand(len(m), 3).astype('f4'), Mass=m, id=np.arange(len(m)), multi=r.rand(len(m), 3))
    np.save(os.path.join(path, 'meta.npy'), metadata())
    np.save(os.path.join(path, 'meta_snaps.npy'), snap_meta())
    return path
'''
USERFN = r'''
from simim.galprops.galprops import Prop
def doubled(mass):
    return 2 * mass
def prop(name='twice', fn=doubled):
    return Prop(name, fn, kwargs=['mass'], units='Msun/h', h_dependence=-1)
'''
INST = r'''
from simim.instrument import Instrument
from simim.map import Grid
def field(nz=6, pix=0.25, spix=1., seed=1, c=100.):
    g = Grid(1, [0., 0., c], [6., 6., nz * spix], [pix, pix, spix], axunits=['rad', 'rad', 'Hz'], gridunits='Jy')
    g.init_grid()
    g.grid[:] = np.random.RandomState(seed).rand(*g.grid.shape)
    return g
def instrument(**kw):
    d = dict(spatial_response=None, spatial_kwargs=None)
    return Instrument(spatial_unit='rad', spectral_unit='Hz', flux_unit='Jy', default_spatial_response='spec-gauss',
                      default_spatial_kwargs={'freq0': 100., 'fwhmx': 1., 'fwhmy': 1.}, default_spectral_response='boxcar',
                      default_spectral_kwargs={'freq0': 100., 'width': 8.}, default_noise_function='none', default_noise_kwargs={})
AT = np.array([[0.1, 0.2], [0.6, -0.7], [-1.1, 0.3]])
def sample(inst, *f):
    return inst.sample_fields(AT, *f, sample_noise=False)
'''
BUGS = [
 dict(id='basic-sticks', property='P07', needs='one catalogue object used for a basic-only catalogue and then to make the full one',
      what='a catalogue remade with all properties holds only the basic ones if the object made a basic one before',
      edits=[(RAWF, "            if basic:\n                self.other_fields = {}\n",
              "            if basic or not getattr(self,'other_fields',True):\n                self.other_fields = {}\n")],
      demo=CAT + r'''
p = raw([[1e10, 2e10], [3e10]])
c = Cat(p)
c.format(basic=True)
c.format(remake=True)
with h5py.File(os.path.join(p, 'data.hdf5')) as f:
    need('halo_id' in f['Snapshot 0'] and 'm_dm' in f['Snapshot 1'], 'only %s' % list(f['Snapshot 0']))
'''),
 dict(id='optional-fields', property='P08', needs='an error while one property of a snapshot is written',
      what='a property which could not be written is left out of the snapshot, which then passes for complete',
      edits=[(RAWF, "                        snap_grp.create_dataset(new_key,data=subhalos[key])\n                        snap_grp[new_key].attrs['units'] = self.other_fields[key][0][2]\n",
              "                        try:\n                            snap_grp.create_dataset(new_key,data=subhalos[key])\n"
              "                        except (OSError, ValueError) as e:\n                            warnings.warn(\"Property {} not written: {}\".format(new_key,e))\n                            continue\n"
              "                        snap_grp[new_key].attrs['units'] = self.other_fields[key][0][2]\n")],
      demo=CAT + r'''
p = raw([[1e10, 2e10], [3e10]])
real = h5py.Group.create_dataset
def no_room(self, name, *a, **k):
    if name == 'halo_id':
        raise OSError(28, 'No space left on device')
    return real(self, name, *a, **k)
h5py.Group.create_dataset = no_room
try:
    Cat(p).format()
except OSError:
    pass
h5py.Group.create_dataset = real
with h5py.File(os.path.join(p, 'data.hdf5')) as f:
    for n in f:
        need('halo_id' in f[n], '%s is there without halo_id' % n)
'''),
 dict(id='empty-chunk-ends', property='P07', needs='raw files of which one in the middle holds no subhalos',
      what='subhalos in files after one without any are read as zeros',
      edits=[(ILD, "            continue  # empty file chunk\n", "            break  # nothing left\n")],
      demo=r'''
from simim.siminterface._illustris_datahandling import _loadSubhalos
d = os.path.join(SCRATCH, 'raw', 'groups_003')
os.makedirs(d)
for k, n in enumerate([2, 0, 3]):
    with h5py.File(os.path.join(d, 'fof_subhalo_tab_003.%d.hdf5' % k), 'w') as f:
        h = f.create_group('Header')
        h.attrs['NumFiles'], h.attrs['Nsubgroups_Total'], h.attrs['Nsubgroups_ThisFile'] = 3, 5, n
        g = f.create_group('Subhalo')
        if n or not k:
            g.create_dataset('SubhaloMass', data=np.arange(n) + 10. * k + 1)
m = _loadSubhalos(os.path.join(SCRATCH, 'raw', ''), 3, ['SubhaloMass'])
need(list(m) == [1, 2, 21, 22, 23], 'read %s' % m)
'''),
 dict(id='listed-once', property='P05', needs='two downloads with one catalogue object',
      what='a second download with the same object fetches files again that are complete',
      edits=[(UM, "        else:\n            self.download_snaps = []\n            for snap in self.snaps:\n",
              "        elif not hasattr(self,'download_snaps'):\n            self.download_snaps = []\n            for snap in self.snaps:\n")],
      demo=r'''
from simim.siminterface.universemachine import UniversemachineCatalogs
import simim.siminterface.universemachine as u
c = UniversemachineCatalogs('_testbox', snaps=[0, 1])
c.download()
fetched = []
real = u.shutil.copy
u.shutil.copy = lambda a, b: (fetched.append(str(a)), real(a, b))[1]
c.download()
u.shutil.copy = real
need(not fetched, 'fetched again: %s' % fetched)
'''),
 dict(id='meta-kept-in-memory', property='P06', needs='metadata downloaded again by an object for which there was some when it was made',
      what='the snapshot table read when the object was made is kept and saved again when metadata are downloaded again for other snapshots',
      edits=[(UM, "        self.snap_meta = snap_meta\n", "        if self.snap_meta is None or not redownload:\n            self.snap_meta = snap_meta\n")],
      demo=r'''
from simim.siminterface.universemachine import UniversemachineCatalogs
UniversemachineCatalogs('_testbox', snaps=[0, 1]).download_meta()
c = UniversemachineCatalogs('_testbox')
n = len(c.allsnaps)
need(n > 2, 'only %d snapshots' % n)
c.download_meta(redownload=True)
m = np.load(os.path.join(c.path, 'meta_snaps.npy'))
need(list(m['index']) == list(range(n)), 'metadata of %s' % m['index'])
'''),
 dict(id='pointings-kept', property='P14', needs='two builds with one light-cone maker',
      what='the starting points of the first build are used again by later builds of the same maker, whatever generator they are given',
      edits=[(LCM, "        pointing_start = rng.random((n,3)) * self.box_edge\n\n        # Set up pointing parameters - PA for boxes\n",
              "        if len(getattr(self,'pointing_start',())) != n:\n            self.pointing_start = rng.random((n,3)) * self.box_edge\n"
              "        pointing_start = self.pointing_start\n\n        # Set up pointing parameters - PA for boxes\n")],
      demo=r'''
from simim.lightcone import LCMaker
simulation([halos(60, seed=k) for k in (1, 2)], zs=[0.05, 0.0])
def starts(m, seed):
    m.build_lightcones(2, rng=np.random.default_rng(seed))
    r = []
    for k in range(2):
        with h5py.File(os.path.join(m.lc_path, 'lc_%04d.hdf5' % k)) as f:
            r.append(list(f.attrs['start position']))
    return r
m = LCMaker('TNG100-1', 'set', openangle=0.02, redshift_min=0.01, redshift_max=0.03, overwrite=True)
a = starts(m, 1); b = starts(m, 2); c = starts(m, 1)
need(a != b, 'the same pointings from different seeds')
need(a == c, 'other pointings from the same seed')
'''),
 dict(id='cm-plain', property='P17', needs='components of a centre of mass added one by one',
      what='components of the centre of mass are added as they are in the box, not in the frame of the light cone',
      edits=[(LCM, "                    'spin_x','spin_y','spin_z',\n                    'cm_x','cm_y','cm_z']\n",
              "                    'spin_x','spin_y','spin_z']\n")],
      demo=r'''
from simim.lightcone import LCMaker
def h(seed):
    r = np.random.RandomState(seed)
    return halos(3000, seed=seed, **{'cm_' + a: ((r.rand(3000) * 75).astype('f4'), 'Mpc/h', -1) for a in 'xyz'})
simulation([h(k) for k in (1, 2)], zs=[0.05, 0.0])
m = LCMaker('TNG100-1', 'set', openangle=6, redshift_min=0.0, redshift_max=0.05, overwrite=True)
m.build_lightcones(2, rng=np.random.default_rng(1))
m.add_properties('cm_x', 'halo_id')
with h5py.File(os.path.join(m.lc_path, 'lc_0000.hdf5')) as f, h5py.File(os.path.join(m.sim_path, 'data.hdf5')) as s:
    need('halo_id' in f['Lightcone Full'], 'halo_id was not added')
    if 'cm_x' in f['Lightcone Full']:
        ix = f['Indexing/sim_indices'][:]
        need(len(ix) > 0, 'empty')
        plain = [s['Snapshot %d/cm_x' % i['snap']][i['index']] for i in ix]
        need(not np.allclose(plain, f['Lightcone Full/cm_x'][:]), 'the components are those of the box')
'''),
 dict(id='offset-first-axis', property='P21', needs='two detectors whose offsets agree in the first coordinate only',
      what='detectors whose offsets agree in the first coordinate are sampled at the position of the first of them',
      edits=[(INS, "self.detectors[d].pointing_offsets == self.detectors[d0].pointing_offsets]",
              "self.detectors[d].pointing_offsets[:1] == self.detectors[d0].pointing_offsets[:1]]")],
      demo=INST + r'''
def inst(*d):
    i = instrument()
    for n, o in d:
        i.add_detector(n, pointing_offsets=o)
    i.add_field(field(), 'f')
    i.map_fields('f', kernel_size=(9, 9))
    return sample(i, 'f')
one = inst(('a', (0.3, 0.8)))
both = inst(('b', (0.3, -0.6)), ('a', (0.3, 0.8)))
need(np.allclose(both[:, 1], one[:, 0], rtol=1e-9), 'the samples of a detector change with another detector')
'''),
 dict(id='cosmo-may-differ', property='P22', needs='cones of one set with different cosmologies',
      what='cones of different cosmologies are opened as a consistent set',
      edits=[(LCH, "                    if self.require_consistent:\n", "                    if self.require_consistent and attr != 'cosmo':\n")],
      demo=r'''
from simim.lightcone import LCIterator
cone(0); cone(1)
with h5py.File(cone(2), 'a') as f:
    f.attrs['cosmo_omega_matter'] = 0.25
need(not fails(lambda: LCIterator('TNG100-1', 'set', [0, 1])), 'cannot be opened')
need(fails(lambda: LCIterator('TNG100-1', 'set', [0, 1, 2])), 'cones of different cosmologies are opened as consistent')
'''),
 dict(id='unload-anyway', property='P11', needs='a write that fails in a call asked to unload after writing',
      what='a property whose write failed is unloaded as if it had been written',
      edits=[(HND, "            self.write_property(*names,overwrite=overwrite_to_disk,dtype=dtype_to_disk)\n            if unload_to_disk:\n                self.unload_property(*names)\n",
              "            try:\n                self.write_property(*names,overwrite=overwrite_to_disk,dtype=dtype_to_disk)\n            finally:\n                if unload_to_disk:\n                    self.unload_property(*names)\n")],
      demo=USERFN + r'''
from simim.siminterface import SimHandler
simulation([halos(8)], zs=[0.])
s = SimHandler('TNG100-1').get_snap(0)
import h5py as h
real = h.Group.create_dataset
def no_room(self, *a, **k):
    raise OSError(28, 'No space left on device')
h.Group.create_dataset = no_room
need(fails(lambda: s.make_property(prop(), use_all_inds=True, write_to_disk=True, unload_to_disk=True), OSError), 'the write did not fail')
h.Group.create_dataset = real
need(s.has_loaded('twice'), 'the property is gone from memory although it was not written')
s.write_property('twice')
'''),
]
