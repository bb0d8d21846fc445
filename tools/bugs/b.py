INST = r'''
from simim.instrument import Instrument
from simim.map import Grid
def field(nz=6, pix=0.25, spix=1., seed=1, c=100.):
    g = Grid(1, [0., 0., c], [6., 6., nz * spix], [pix, pix, spix], axunits=['rad', 'rad', 'Hz'], gridunits='Jy')
    g.init_grid()
    g.grid[:] = np.random.RandomState(seed).rand(*g.grid.shape)
    return g
def instrument(**kw):
    d = dict(spatial_response=None, spatial_kwargs=None)
    return Instrument(spatial_unit='rad', spectral_unit='Hz', flux_unit='Jy', default_spatial_response='spec-gauss',
                      default_spatial_kwargs={'freq0': 100., 'fwhmx': 1., 'fwhmy': 1.}, default_spectral_response='boxcar',
                      default_spectral_kwargs={'freq0': 100., 'width': 8.}, default_noise_function='none', default_noise_kwargs={})
AT = np.array([[0.1, 0.2], [0.6, -0.7], [-1.1, 0.3]])
def sample(inst, *f):
    return inst.sample_fields(AT, *f, sample_noise=False)
'''
INS = 'instrument/instrument.py'
LCM = 'lightcone/lcmaker.py'
BUGS = [
 dict(id='beam-reused', property='P21', needs='two fields with different spectral axes mapped in one call, all detectors sharing one beam',
      what='the beam evaluated for the first field is used for the others when all detectors share it',
      edits=[(INS, "                if not input_beam:\n                    beam =", "                if beam is None or len(detector_groups) > 1:\n                    beam =")],
      demo=INST + r'''
a = instrument(); a.add_detector('d'); a.add_field(field(c=100.), 'f'); a.add_field(field(c=60.), 'g')
a.set_spectral_respones('d', spectral_response=lambda x: np.ones_like(x))
a.map_fields('f', 'g', kernel_size=(9, 9))
b = instrument(); b.add_detector('d'); b.add_field(field(c=60.), 'g')
b.set_spectral_respones('d', spectral_response=lambda x: np.ones_like(x))
b.map_fields('g', kernel_size=(9, 9))
need(np.allclose(sample(a, 'g'), sample(b, 'g'), rtol=1e-9), 'the samples of the second field are not those of a fresh instrument')
'''),
 dict(id='default-and-detector', property='P21', needs="a response set for a detector and for 'instrument' in one call while maps exist, then sampling",
      what='maps stay marked consistent when a detector and the default of the instrument are changed together',
      edits=[(INS, "        if len(detector_names) > 0:\n            for k in self.field_names:\n                self.maps_consistent[k] = False\n\n        # Update default",
              "        if len(detector_names) > 0 and not do_inst:\n            for k in self.field_names:\n                self.maps_consistent[k] = False\n\n        # Update default")],
      demo=INST + r'''
a = instrument(); a.add_detector('d'); a.add_field(field(), 'f'); a.map_fields(kernel_size=(9, 9))
old = sample(a)
a.set_spectral_respones('d', 'instrument', spectral_response='boxcar', spectral_kwargs={'freq0': 98., 'width': 2.})
need(fails(lambda: sample(a), ValueError), 'samples of maps that are out of date')
'''),
 dict(id='maps-flag-early', property='P21', needs='a user response that raises while maps are remade, then sampling',
      what='maps are marked consistent before they are made, so after a failure stale samples are returned',
      edits=[(INS, "            field = self.fields[f]\n\n            all_detector_maps", "            field = self.fields[f]\n            self.maps_consistent[f] = True\n\n            all_detector_maps")],
      demo=INST + r'''
a = instrument(); a.add_detector('d'); a.add_field(field(), 'f'); a.map_fields(kernel_size=(9, 9))
def bad(x):
    raise RuntimeError
a.set_spectral_respones('d', spectral_response=bad)
need(fails(lambda: a.map_fields(kernel_size=(9, 9)), RuntimeError), 'mapped')
need(fails(lambda: sample(a)), 'samples of maps that are out of date')
'''),
 dict(id='clones-by-kind', property='P21', needs='two detectors whose beams are of one kind but with other parameters',
      what='detectors with the same beam function share a beam although their parameters differ',
      edits=[(INS, "self.detectors[d].spatial_response == self.detectors[d0].spatial_response and self.detectors[d].spatial_kwargs == self.detectors[d0].spatial_kwargs]",
              "self.detectors[d].spatial_response == self.detectors[d0].spatial_response and self.detectors[d].spatial_kwargs.keys() == self.detectors[d0].spatial_kwargs.keys()]")],
      demo=INST + r'''
def make(names):
    a = instrument()
    for n in names:
        a.add_detector(n, spatial_response='gauss', spatial_kwargs={'fwhmx': {'d': .8, 'e': 2.}[n], 'fwhmy': 1.})
    a.add_field(field(), 'f'); a.map_fields(kernel_size=(9, 9)); return sample(a)
need(np.allclose(make('de')[:, 1], make('e')[:, 0], rtol=1e-9), 'the second detector has the beam of the first')
'''),
 dict(id='copies-modulo', property='P15', needs='a box that has to be copied because the cone is wide compared with it',
      what='positions of copies of the box fold onto each other, so halos appear several times',
      edits=[(LCM, "                        iter_position %= box_size", "                        iter_position %= self.box_edge")],
      demo=r'''
from simim.lightcone import LCMaker
simulation([halos(300, box=75., seed=s) for s in (1, 2)], zs=[1.2, 0.3], box=75.)
m = LCMaker('TNG100-1', 'set', 2.0, redshift_min=0.25, redshift_max=0.9, overwrite=True)
for s in range(12):
    m.build_lightcones(1, rng=np.random.default_rng(s))
    with h5py.File(os.path.join(m.lc_path, 'lc_0000.hdf5')) as f:
        g = f['Lightcone Full']
        p = np.round(np.array([g['pos_' + a][:] for a in 'xyz']).T, 6)
        need(len(np.unique(p, axis=0)) == len(p), 'halos appear several times')
'''),
 dict(id='quarter-fits', property='P16', needs='a quarter sphere of a radius between half the box and the box',
      what='quarter spheres larger than half the box are built with parts missing',
      edits=[(LCM, "        if mode == 'eighth':\n            dmax", "        if mode in ['quarter','eighth']:\n            dmax")],
      demo=r'''
from simim.lightcone import SphereMaker
simulation([halos(30)], zs=[0.])
need(fails(lambda: SphereMaker('TNG100-1', 'set', 0., 0.024, mode='quarter', overwrite=True), ValueError), 'a quarter sphere of %s Mpc/h in a box of 75 Mpc/h' % 72)
need(not fails(lambda: SphereMaker('TNG100-1', 'set', 0., 0.01, mode='quarter', overwrite=True)), 'refused')
'''),
 dict(id='sphere-limits-cone', property='P16', needs='a sphere over more than one snapshot',
      what='the halos of a sphere are selected with the outer limit of the snapshot, not of the sphere',
      edits=[(LCM, """                start_distance = np.amax([snap_meta['distance_min'],distance_zmin])
                end_distance = np.amin([snap_meta['distance_max'],distance_zmax])

                # Load the snapshot data for the basic fields
""", """                start_distance = np.amax([snap_meta['distance_min'],distance_zmin])
                end_distance = snap_meta['distance_max'] if snap_ind > 0 else np.amin([snap_meta['distance_max'],distance_zmax])

                # Load the snapshot data for the basic fields
""")],
      demo=r'''
from simim.lightcone import SphereMaker
from simim.lightcone import LCHandler
simulation([halos(4000, box=300., seed=s) for s in (1, 2)], zs=[0.06, 0.01], box=300.)
SphereMaker('TNG100-1', 'set', 0., 0.04, overwrite=True).build_lightcones(1, rng=np.random.default_rng(3))
z = LCHandler('TNG100-1', 'set', 0).return_property('redshift')
need(len(z) > 50 and z.max() <= 0.0401, 'halos at redshift %.3f' % z.max())
'''),
 dict(id='empty-cone-break', property='P17', needs='several cones in a set, of which an earlier one has no halo from some snapshot',
      what='cones after one without halos of a snapshot get no values for that snapshot',
      edits=[(LCM, """                            start = np.where(indexing['snap'] == snap_meta['index'])[0]
                            if len(start) > 0:
                                start = np.amin(start)
                            else:
                                start = 0
                            indexing = indexing[indexing['snap']==snap_meta['index']]

                            # Append""", """                            start = np.where(indexing['snap'] == snap_meta['index'])[0]
                            if len(start) == 0:
                                break
                            start = np.amin(start)
                            indexing = indexing[indexing['snap']==snap_meta['index']]

                            # Append""")],
      demo=r'''
from simim.lightcone import SphereMaker
simulation([halos(12, seed=s) for s in (1, 2, 3)], zs=[0.011, 0.006, 0.0])
m = SphereMaker('TNG100-1', 'set', 0., 0.012, overwrite=True)
for seed in range(60):
    m.build_lightcones(3, rng=np.random.default_rng(seed))
    m.add_properties('halo_id')
    for k in range(3):
        with h5py.File(os.path.join(m.lc_path, 'lc_%04d.hdf5' % k)) as f, h5py.File(os.path.join(m.sim_path, 'data.hdf5')) as s:
            v = f['Lightcone Full/halo_id'][:]
            ix = f['Indexing/sim_indices'][:]
            need(all(s['Snapshot %d/halo_id' % i['snap']][i['index']] == x for i, x in zip(ix, v)), 'wrong halo_id in cone %d' % k)
'''),
 dict(id='sphere-flips-global', property='P14', needs='a sphere built twice from one seed in the presence of other random draws',
      what='the reflections of spheres come from the global generator, so a seed does not repeat them',
      edits=[(LCM, "        # Pick which dimensions to flip\n        pointing_flips = rng.choice([-1,1],size=(n,3))\n\n        # Set up redshift indexing",
              "        # Pick which dimensions to flip\n        pointing_flips = np.random.choice([-1,1],size=(n,3))\n\n        # Set up redshift indexing")],
      demo=r'''
from simim.lightcone import SphereMaker
simulation([halos(50)], zs=[0.])
m = SphereMaker('TNG100-1', 'set', 0., 0.01, overwrite=True)
def flips():
    m.build_lightcones(4, rng=np.random.default_rng(5))
    r = []
    for k in range(4):
        with h5py.File(os.path.join(m.lc_path, 'lc_%04d.hdf5' % k)) as f:
            r.append(list(f.attrs['box flips']))
    return r
np.random.seed(1); a = flips(); np.random.seed(2); b = flips()
need(a == b, 'other reflections from the same seed')
'''),
 dict(id='status-early', property='P14', needs='a build stopped after its files were created',
      what='cones are marked as finished when their files are created',
      edits=[(LCM, "                file.attrs['finished'] = False\n                file.attrs['status_initialized'] = True\n                file.attrs['status_basic'] = False\n                file.attrs['status_extra_initialized'] = False\n                file.attrs['status_extra_completed'] = False\n\n\n",
              "                file.attrs['finished'] = dtime.isoformat(' ')\n                file.attrs['status_initialized'] = True\n                file.attrs['status_basic'] = True\n                file.attrs['status_extra_initialized'] = False\n                file.attrs['status_extra_completed'] = False\n\n\n")],
      demo=r'''
from simim.lightcone import LCMaker
simulation([halos(50)], zs=[0.5])
m = LCMaker('TNG100-1', 'set', 0.5, redshift_min=0.1, redshift_max=0.4, overwrite=True)
def stop(x):
    raise KeyboardInterrupt
m.assign_z = stop
need(fails(lambda: m.build_lightcones(1, rng=np.random.default_rng(1)), KeyboardInterrupt), 'built')
with h5py.File(os.path.join(m.lc_path, 'lc_0000.hdf5')) as f:
    need(not f.attrs['status_basic'] and not f.attrs['finished'], 'a stopped build is marked as finished')
'''),
 dict(id='b17-quenched-global', property='P18', needs='star formation rates of the Bethermin model computed twice from one seed',
      what='which galaxies are quenched comes from the global generator',
      edits=[('galprops/sfr_bethermin17.py', "        isq = rng.uniform(0,1,len(sfr)) > sffrac", "        isq = np.random.uniform(0,1,len(sfr)) > sffrac")],
      demo=r'''
from simim.galprops.sfr_bethermin17 import bethermin17_base
simulation([halos(5)])
b = bethermin17_base('TNG100-1')
m, z = np.full(200, 3e10), np.full(200, 1.)
np.random.seed(1); x = b.b17_sfr(m, z, rng=np.random.default_rng(4)); np.random.seed(2); y = b.b17_sfr(m, z, rng=np.random.default_rng(4))
need(np.array_equal(x, y), 'other values from the same seed')
'''),
 dict(id='rarely-drop-rng', property='P18', needs='dense gas line luminosities with scatter computed twice from one seed',
      what='the scatter of a dense gas model ignores the generator of the caller',
      edits=[('galprops/line_densegas.py', "L_hcn = log10normal(L_hcn, sig_lhcn, preserve_linear_mean=True, rng=rng)", "L_hcn = log10normal(L_hcn, sig_lhcn, preserve_linear_mean=True)")],
      demo=r'''
import inspect, simim.galprops.line_densegas as d
f = [getattr(d, n) for n, o in inspect.getmembers(d, inspect.isfunction) if 'sig_lhcn' in inspect.getsource(o)][0]
x, y = (f(np.full(20, 10.), rng=np.random.default_rng(4)) for k in range(2))
need(np.array_equal(x, y), 'other values from the same seed')
'''),
 dict(id='stale-scatter', property='P18', needs='two calls with scatter on equally many objects',
      what='the scatter drawn for one call is used again by the next of the same length',
      edits=[('galprops/log10normal.py', "    x_scattered = mu * np.power(10,dex*rng.normal(loc=0,scale=1,size=mu.shape))",
              "    if _last.get('shape') != mu.shape or _last.get('rng') is not rng:\n        _last.update(shape=mu.shape, rng=rng, draw=rng.normal(loc=0,scale=1,size=mu.shape))\n    x_scattered = mu * np.power(10,dex*_last['draw'])"),
             ('galprops/log10normal.py', "def log10normal(", "_last = {}\n\ndef log10normal(")],
      demo=r'''
from simim.galprops.log10normal import log10normal
g = np.random.default_rng(4)
x = [log10normal(np.ones(5), .3, rng=g) for k in range(2)]
need(not np.array_equal(*x), 'the same scatter twice')
'''),
 dict(id='enter-means-yes', property='P02', needs='pressing return at the prompt for a set of light cones that exists',
      what='an empty answer counts as yes',
      edits=[(LCM, "            while answer != 'y':\n                if answer == 'n':\n                    print(\"Aborting setup\")", "            while answer not in ['y','']:\n                if answer == 'n':\n                    print(\"Aborting setup\")")],
      demo=r'''
from simim.lightcone import LCMaker
simulation([halos(5)], zs=[0.5])
LCMaker('TNG100-1', 'set', 0.5, redshift_min=0.1, redshift_max=0.4, overwrite=True)
answers('', 'n')
need(fails(lambda: LCMaker('TNG100-1', 'set', 0.5, redshift_min=0.1, redshift_max=0.4), ValueError), 'an empty answer was taken as yes')
'''),
 dict(id='compressed-single', property='P20', needs='a grid saved with compression whose values need double precision',
      what='compressed grids are saved in single precision',
      edits=[('map/gridder.py', "            save_data['grid'] = self.grid\n", "            save_data['grid'] = self.grid.astype(np.result_type('f4',self.grid.dtype.kind+'4')) if compress and self.grid.dtype.kind == 'f' else self.grid\n")],
      demo=r'''
from simim.map import Grid, LoadGrid
g = Grid(1, [0., 0.], [4., 4.], [1., 1.]); g.init_grid(); g.grid += 1 / 3.
p = os.path.join(SCRATCH, 'g.npz')
g.save(p, compress=True)
need(np.array_equal(LoadGrid(p).grid, g.grid), 'the values changed')
'''),
 dict(id='tables-shared', property='P23', needs='matching for two simulations of one family',
      what='simulations of one family share their tables of stellar masses',
      edits=[('galprops/sfr_bethermin17.py', "        self.name = 'b17_'+sim", "        self.name = 'b17_'+sim.split('-')[0]")],
      demo=r'''
from simim.galprops.sfr_bethermin17 import bethermin17_base as B
simulation([halos(60, seed=1), halos(60, seed=2)], 'TNG100-1', zs=[1., 0.])
simulation([halos(60, seed=5), halos(80, seed=6)], 'TNG100-2', zs=[1., 0.])
a = B('TNG100-1', sm_comp=True, sm_haloprop='mass').stellarmass(np.array([1e12]), .5)
b = B('TNG100-2', sm_comp=True, sm_haloprop='mass').stellarmass(np.array([1e12]), .5)
c = B('TNG100-2', sm_comp=True, sm_remake=True, sm_haloprop='mass').stellarmass(np.array([1e12]), .5)
need(np.array_equal(b, c), 'the tables of the other simulation were used')
'''),
 dict(id='comp-remakes', property='P23', needs='tables present, and a later session that asks for them with other settings but not to remake them',
      what='tables are remade whenever they may be',
      edits=[('galprops/sfr_ir.py', "        if remake or (comp and not pathexists):", "        if remake or comp:")],
      demo=r'''
from simim.galprops.sfr_ir import g13irlf_base as G
simulation([halos(60, seed=1), halos(60, seed=2)], zs=[1., 0.])
import inspect
def lir(**kw):
    g = G('TNG100-1', comp=True, **kw)
    return open(os.path.join(g.path, 'lir.npy'), 'rb').read(), open(os.path.join(g.path, 'mass_axis.npy'), 'rb').read()
a = lir(haloprop='mass', halomassmin=1e10)
need(lir(haloprop='mass', halomassmin=1e11) == a, 'the tables changed')
'''),
 dict(id='range-relative', property='P12', needs='two selections, the second within the first, after one that left halos out',
      what='a selection within a selection picks other halos',
      edits=[('_handlers.py', "            vals = self.return_property(property_name,use_all_inds=True,in_h_units=in_h_units)\n", "            vals = self.return_property(property_name,use_all_inds=reset,in_h_units=in_h_units)\n")],
      demo=r'''
from simim.siminterface import SimHandler
simulation([halos(40)])
s = SimHandler('TNG100-1').get_snap(0)
m, x = s.return_property('mass'), s.return_property('pos_x')
s.set_property_range('pos_x', 20., 80.)
s.set_property_range('mass', 1e11, np.inf, reset=False)
need(np.array_equal(np.sort(s.return_property('mass')), np.sort(m[(x >= 20) & (x <= 80) & (m >= 1e11)])), 'other halos are selected')
'''),
 dict(id='props-reset', property='P09', needs='a table location other than the default, and another session',
      what='every session moves the tables of the galaxy model back to the default place',
      edits=[('galprops/sfr_behroozi13.py', "            if 'behroozi13' not in paths.props:\n", "            if paths.props.get('behroozi13') != os.path.join(paths.root,paths.prop_ext,'behroozi13'):\n")],
      demo=r'''
p = os.path.join(SCRATCH, 'tables')
os.mkdir(p)
Paths()._newproppath('behroozi13', p)
from simim.galprops.sfr_behroozi13 import behroozi13_base
behroozi13_base()
need(Paths().props['behroozi13'] == p, 'the recorded location of the tables changed')
'''),
]
