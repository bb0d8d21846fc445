SYN = r'''
from simim.siminterface._rawsiminterface import SimCatalogs
class Cat(SimCatalogs):
    """A simulation with two snapshots, whose raw data are npz files."""
    def __init__(self, path, snaps='all'):
        self.allsnaps = np.arange(2)
        super().__init__('TNG100-1', path, snaps, updatepath=False)
        self.basic_fields = {'Pos': [('pos_x', 'f', 'Mpc/h', -1), ('pos_y', 'f', 'Mpc/h', -1), ('pos_z', 'f', 'Mpc/h', -1)],
                             'Mass': [('mass', 'f', 'Msun/h', -1)]}
        self.dm_fields = {'id': [('halo_id', 'i', 'None', 0)]}
        self.matter_fields = {'multi': [('m_gas', 'f', 'Msun/h', -1), ('none', 'f', 'Msun/h', -1), ('m_dm', 'f', 'Msun/h', -1)]}
    def _loader(self, path, snapshot, fields):
        with np.load(os.path.join(path, 'snap_%d.npz' % snapshot)) as z:
            return {k: z[k] for k in fields}, len(z['Mass'])
    def _get_rawsnapfiles(self, snapshot):
        return ['snap_%d.npz' % snapshot]
def raw(masses):
    path = os.path.join(SCRATCH, 'raw sim')
    os.makedirs(os.path.join(path, 'raw'))
    r = np.random.RandomState(1)
    for i, m in enumerate(masses):
        m = np.asarray(m, dtype='f4')
        np.savez(os.path.join(path, 'raw', 'snap_%d.npz' % i), Pos=r.rand(len(m), 3).astype('f4'), Mass=m, id=np.arange(len(m)), multi=r.rand(len(m), 3))
    np.save(os.path.join(path, 'meta.npy'), metadata())
    np.save(os.path.join(path, 'meta_snaps.npy'), snap_meta())
    return path
'''
UM = r'''
from simim.siminterface.universemachine import UniversemachineCatalogs
def um(**kw):
    return UniversemachineCatalogs('_testbox', **kw)
'''
RAW = 'siminterface/_rawsiminterface.py'
BUGS = [
 dict(id='append-drops-multi', property='P07', needs='formatting split into two runs, with a field of several components of which one is not kept',
      what='snapshots formatted by a later run lack the properties of multi-component fields',
      edits=[(RAW, "if other_fields_start[f][0][0] in data_fields:", "if all(field[0] in data_fields for field in other_fields_start[f]):")],
      demo=SYN + r'''
p = raw([[1e10, 2e10], [3e10]])
Cat(p, [0]).format()
Cat(p, [1]).format()
with h5py.File(os.path.join(p, 'data.hdf5')) as f:
    need(sorted(f['Snapshot 0']) == sorted(f['Snapshot 1']), 'the snapshots have different properties: %s' % list(f['Snapshot 1']))
    need('m_dm' in f['Snapshot 1'], 'no m_dm')
'''),
 dict(id='mass-cut-edge', property='P07', needs='a halo whose mass equals one of the tabulated cuts exactly',
      what='the table of mass cuts leaves out halos exactly at a cut',
      edits=[(RAW, "basic_properties['mass']>=mass_cuts['min_mass'][i]", "basic_properties['mass']>mass_cuts['min_mass'][i]")],
      demo=SYN + r'''
cut = np.logspace(6, 20, 141).astype('f4')[45]
p = raw([[cut, 1e9], [3e10]])
Cat(p).format()
with h5py.File(os.path.join(p, 'data.hdf5')) as f:
    g = f['Snapshot 0']
    for row in g['mass_cuts'][:]:
        need(row['index'] == np.count_nonzero(g['mass'][:] >= row['min_mass']), 'wrong index at %g' % row['min_mass'])
'''),
 dict(id='clean-before-write', property='P04', needs='a write that fails (full disk) while formatting with realtime_clean_raw',
      what='raw files are deleted before the formatted snapshot is written, so a failed write loses the snapshot',
      edits=[(RAW, """            # Now put it in the file
            with h5py.File(""", """            # The raw data is in memory now, make room before writing
            if realtime_clean_raw:
                for file in self._get_rawsnapfiles(snap):
                    remove_path(os.path.join(self.path,'raw',file))

            # Now put it in the file
            with h5py.File("""), (RAW, """            # Delete raw data if requested
            if realtime_clean_raw:
                rawsnapfiles = self._get_rawsnapfiles(snap)
""", """            # Nothing should remain
            if realtime_clean_raw:
                rawsnapfiles = [file for file in self._get_rawsnapfiles(snap)]
""")], demo=SYN + r'''
p = raw([[1e10, 2e10], [3e10]])
c = Cat(p)
real = h5py.Group.create_dataset
def full(self, *a, **k):
    raise OSError(28, 'No space left on device')
h5py.Group.create_dataset = full
need(fails(lambda: c.format(realtime_clean_raw=True, realtime_clean_raw_check=False), OSError), 'no error')
h5py.Group.create_dataset = real
need(os.path.exists(os.path.join(p, 'raw', 'snap_0.npz')), 'the raw data is gone and nothing was formatted')
'''),
 dict(id='second-answer', property='P02', needs='an answer that is not recognised, followed by no',
      what='after one unrecognised answer formatting proceeds to delete raw data whatever is answered next',
      edits=[(RAW, """            while answer != 'y':
                if answer == 'n':
                    print("Aborting")""", """            if answer != 'y':
                if answer == 'n':
                    print("Aborting")""")],
      demo=SYN + r'''
p = raw([[1e10, 2e10], [3e10]])
answers('yes please', 'n')
Cat(p).format(realtime_clean_raw=True)
need(len(os.listdir(os.path.join(p, 'raw'))) == 2, 'raw files deleted after the answer no')
'''),
 dict(id='um-clean-prefix', property='P03', needs='another file in the raw directory whose name starts like a raw file',
      what='cleaning up after formatting a UniverseMachine snapshot deletes files that are not its raw data',
      edits=[('siminterface/universemachine.py', "return [self.web_files[snapshot]]",
              "name = os.path.splitext(self.web_files[snapshot])[0]\n        return [f for f in os.listdir(os.path.join(self.path,'raw')) if f.startswith(name)]")],
      demo=UM + r'''
c = um()
c.download()
keep = os.path.join(c.path, 'raw', os.path.splitext(str(c.web_files[1]))[0] + '_my_notes.dat')
open(keep, 'w').write('mine')
um(snaps=[1]).format(realtime_clean_raw=True, realtime_clean_raw_check=False)
need(os.path.exists(keep), 'a file of the user was deleted')
need(not os.path.exists(os.path.join(c.path, 'raw', str(c.web_files[1]))), 'the raw file is still there')
'''),
 dict(id='part-file-counts', property='P05', needs='a process that dies during a transfer, and a download run again',
      what='the temporary file a dead process left behind is taken for a download in progress, the file never arrives',
      edits=[('siminterface/universemachine.py', """                if os.path.exists(file_path):
                    warnings""", """                if os.path.exists(file_path) or os.path.exists(file_path+'.part'):
                    warnings""")],
      demo=UM + r'''
import subprocess
code = 'import sys; sys.path.insert(0, %r); import shutil, os\nfrom simim.siminterface.universemachine import UniversemachineCatalogs\nc = UniversemachineCatalogs("_testbox", snaps=[1])\ndef f(a, b):\n    open(b, "w").write("half")\n    os._exit(9)\nshutil.copy = f\nc.download()\n' % os.path.join(SCRATCH, 'pkg')
c = um(snaps=[1])
r = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], capture_output=True)
need(r.returncode == 9, 'the process did not die: %s' % r.stderr)
um(snaps=[1]).download()
fn = os.path.join(c.path, 'raw', str(c.web_files[1]))
need(os.path.exists(fn) and os.path.getsize(fn) > 100, 'the file did not arrive when the download was run again')
'''),
 dict(id='meta-exists-check', property='P06', needs='a session that dies between saving the two metadata files',
      what='half of the metadata is taken for all of it, and never completed',
      edits=[('siminterface/universemachine.py', """            if os.path.exists(self.meta_path):
                warnings.warn("Metadata appears to exist already: {}".format(self.meta_path))""", """            if os.path.exists(self.snap_meta_path):
                warnings.warn("Metadata appears to exist already: {}".format(self.snap_meta_path))""")],
      demo=UM + r'''
import simim._fileio as F
real = os.replace
def dies(a, b):
    if str(b).endswith('meta.npy'):
        raise KeyboardInterrupt
    return real(a, b)
c = um()
os.replace = dies
need(fails(c.download_meta, KeyboardInterrupt), 'not interrupted')
os.replace = real
c = um()
c.download_meta()
need(um().metadata is not None and um().metadata['number_snaps'] == 3, 'the metadata is incomplete')
'''),
 dict(id='relative-root', property='P01', needs='a data directory given by a relative path, and a later session started elsewhere',
      what='the data directory is recorded as it was typed, relative to where the session happened to run',
      edits=[('_paths.py', "        root = os.path.abspath(root)\n", "        root = os.path.normpath(root)\n")],
      demo=r'''
os.mkdir('other')
answers('y')
Paths()._setuppath('other')
os.mkdir('somewhere')
os.chdir('somewhere')
need(Paths().root == os.path.join(SCRATCH, 'other') or os.path.realpath(Paths().root) == os.path.realpath(os.path.join(SCRATCH, 'other')), 'the data directory is %r' % Paths().root)
'''),
 dict(id='resume-empty-file', property='P08', needs='formatting stopped before its first snapshot was complete, and run again',
      what='a file without snapshots is appended to as if it had some, so formatting never works again',
      edits=[(RAW, "                if len(file.keys())>0:\n", "                if 'number_snaps' in file.attrs:\n")],
      demo=SYN + r'''
p = raw([[1e10, 2e10], [3e10]])
c = Cat(p)
real = c._loader
def stop(*a, **k):
    raise KeyboardInterrupt
c._loader = stop
need(fails(c.format, KeyboardInterrupt), 'not stopped')
need(not fails(Cat(p).format), 'formatting cannot be resumed')
with h5py.File(os.path.join(p, 'data.hdf5')) as f:
    need(sorted(f) == ['Snapshot 0', 'Snapshot 1'], 'snapshots missing')
'''),
 dict(id='returned-alias', property='P10', needs='in-place use of the values returned for all halos in h units',
      what='values returned for all halos are the stored array itself, so changing them changes the property',
      edits=[('_handlers.py', """                return self.properties_loaded[property_name][inds] # multiplying""",
              """                if len(inds) == self.nhalos_all:
                    return self.properties_loaded[property_name]
                return self.properties_loaded[property_name][inds] # multiplying""")],
      demo=r'''
simulation([halos(9), halos(9, seed=1)])
from simim.siminterface import SimHandler
h = SimHandler('TNG100-1', in_h_units=True).get_snap(0)
h.load_property('mass')
a = h.return_property('mass')
b = a.copy()
a *= 2
need(np.array_equal(h.return_property('mass'), b), 'the stored property changed')
'''),
 dict(id='overwrite-means-disk', property='P11', needs='making a property anew in memory while a saved one of that name must not be replaced',
      what='overwrite=True also replaces the property saved on disk although overwrite_to_disk is False',
      edits=[('_handlers.py', "self.write_property(*names,overwrite=overwrite_to_disk,dtype=dtype_to_disk)",
              "self.write_property(*names,overwrite=overwrite or overwrite_to_disk,dtype=dtype_to_disk)")],
      demo=r'''
simulation([halos(9), halos(9, seed=1)])
from simim.siminterface import SimHandler
from simim.galprops.galprops import Prop
h = SimHandler('TNG100-1').get_snap(0)
p = lambda c: Prop('q', lambda mass: mass * 0 + c, ['mass'])
h.make_property(p(1.), use_all_inds=True, write_to_disk=True)
need(fails(lambda: h.make_property(p(2.), overwrite=True, use_all_inds=True, write_to_disk=True)), 'replaced without asking')
need(np.all(SimHandler('TNG100-1').get_snap(0).return_property('q') == 1.), 'the saved property changed')
'''),
 dict(id='contiguous-read', property='P12', needs='a selection that is empty, of a property that is not in memory',
      what='reading only the selected range of a property fails when nothing is selected',
      edits=[('_handlers.py', "                value = file[self.groupname][property_name][:][inds]\n",
              "                first, last = np.min(inds), np.max(inds)+1\n                value = file[self.groupname][property_name][first:last][inds-first]\n")],
      demo=r'''
simulation([halos(9), halos(9, seed=1)])
from simim.siminterface import SimHandler
h = SimHandler('TNG100-1').get_snap(0)
h.set_property_range('mass', 1e30, 1e31)
need(not fails(lambda: h.return_property('pos_x')), 'no answer for an empty selection')
need(len(h.return_property('pos_x')) == 0, 'halos for an empty selection')
'''),
 dict(id='skip-empty-snapshots', property='P13', needs='a snapshot without halos',
      what='a property made for the whole simulation is not written to snapshots that hold no halos',
      edits=[('siminterface/simhandler.py', "            handler.make_property(property=property,\n", "            if handler.nhalos_all == 0:\n                continue\n\n            handler.make_property(property=property,\n")],
      demo=r'''
p = simulation([halos(0), halos(9, seed=1)])
from simim.siminterface import SimHandler
from simim.galprops.galprops import Prop
SimHandler('TNG100-1').make_property(Prop('q', lambda mass: mass * 2, ['mass']), use_all_inds=True, write=True)
with h5py.File(os.path.join(p, 'data.hdf5')) as f:
    need(all('q' in f[g] for g in f), 'not in every snapshot')
'''),
 dict(id='stat-shared-arguments', property='P19', needs='the dictionary of extra arguments used again after a statistic was evaluated',
      what='evaluating a statistic puts the values of properties into the dictionary of the caller',
      edits=[('_handlers.py', """        arguments = {}
        for kwarg in other_kws.keys():
            arguments[kwarg] = other_kws[kwarg]
""", """        arguments = other_kws
""")],
      demo=r'''
simulation([halos(9), halos(9, seed=1)])
from simim.siminterface import SimHandler
h = SimHandler('TNG100-1').get_snap(0)
kw = {'power': 2}
h.eval_stat(lambda mass, power: np.sum(mass**power), ['mass'], other_kws=kw)
need(list(kw) == ['power'], 'the dictionary now has %s' % sorted(kw))
'''),
 dict(id='set-goes-on', property='P22', needs='an operation that fails on one cone of a set, before the last',
      what='the operation goes on with the remaining cones after it failed on one',
      edits=[('lightcone/lchandler.py', """                for k, h in self.lc_handlers.items():
                    result[k] = getattr(h,attr)(*args, **kwargs)
                return result""", """                failed = None
                for k, h in self.lc_handlers.items():
                    try:
                        result[k] = getattr(h,attr)(*args, **kwargs)
                    except Exception as e:
                        failed = e
                if failed is not None:
                    raise failed
                return result""")],
      demo=r'''
for i in range(3):
    cone(i)
from simim.lightcone import LCIterator
from simim.galprops.galprops import Prop
calls = []
def f(mass):
    calls.append(1)
    if len(calls) == 2:
        raise ValueError('this one does not work')
    return mass * 2
it = LCIterator('TNG100-1', 'set')
need(fails(lambda: it.make_property(Prop('q', f, ['mass']), use_all_inds=True, write_to_disk=True), ValueError), 'no error')
need(len(calls) == 2, 'the property was evaluated on %d cones' % len(calls))
with h5py.File(os.path.join(SCRATCH, 'lcs_TNG100-1', 'set', 'lc_0002.hdf5')) as f:
    need('q' not in f['Lightcone Full'], 'a cone after the failure was changed')
'''),
]
