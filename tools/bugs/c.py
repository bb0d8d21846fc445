PTH = '_paths.py'
HND = '_handlers.py'
SIM = 'siminterface/simhandler.py'
LCH = 'lightcone/lchandler.py'
LCM = 'lightcone/lcmaker.py'
ILL = 'siminterface/illustris.py'
B13 = 'galprops/sfr_behroozi13.py'
GRD = 'map/gridder.py'

# A second session of the demonstration: a process of its own with the same scratch package
OTHER = r'''
import subprocess, time
def other(code):
    env = dict(os.environ, PYTHONPATH=os.path.join(SCRATCH, 'pkg'))
    return subprocess.Popen([sys.executable, '-W', 'ignore', '-c', code], cwd=SCRATCH, env=env, stdout=subprocess.DEVNULL)
def wait_for(name, p=None, t=20.):
    end = time.time() + t
    while not os.path.exists(os.path.join(SCRATCH, name)) and time.time() < end and (p is None or p.poll() is None):
        time.sleep(0.05)
def flag(name):
    open(os.path.join(SCRATCH, name), 'w').close()
'''
BUGS = [
 dict(id='tidy-lists', property='P24', needs='one session loading a list with repeated entries while another records a location',
      what='lists with superseded lines are rewritten when they are loaded, dropping what another session records meanwhile',
      edits=[(PTH, "            self.props = _checkload_path_file(os.path.join(self.root,self.proppath_ext))\n",
              "            self.props = _checkload_path_file(os.path.join(self.root,self.proppath_ext))\n"
              "            self._drop_superseded(os.path.join(self.root,self.proppath_ext),self.props)\n\n"
              "    def _drop_superseded(self,path,entries):\n"
              "        \"\"\"Remove lines of a listing file that later ones have replaced\"\"\"\n"
              "        if not os.path.exists(path):\n"
              "            return\n"
              "        with _open_path_file(path) as file:\n"
              "            n_lines = len(file.readlines())\n"
              "        if n_lines > len(entries):\n"
              "            with atomic_path(path) as tmp_path:\n"
              "                with _open_path_file(tmp_path,'w') as file:\n"
              "                    for name in entries:\n"
              "                        file.write('{} {}\\n'.format(name,entries[name]))\n")],
      demo=OTHER + r'''
for k in range(3):
    Paths()._newproppath('mine', os.path.join(SCRATCH, 'pkg') if k else ROOT, checkoverwrite=False)
real, state = os.replace, []
def replace(a, b):
    if not state:
        state.append(other("from simim._paths import _SimIMPaths as P; P()._newproppath('theirs', %r, checkoverwrite=False); open('there', 'w')" % ROOT))
        wait_for('there', state[0], 6)
    return real(a, b)
os.replace = replace
p = Paths()
p._newproppath('third', ROOT, checkoverwrite=False)
os.replace = real
need(state[0].wait() == 0, 'the other session failed')
got = Paths().props
need(got.get('mine') == os.path.join(SCRATCH, 'pkg') and got.get('theirs') == ROOT and got.get('third') == ROOT, 'locations are lost: %s' % got)
'''),
 dict(id='clear-first', property='P24', needs='two sessions starting for the first time in one data directory, one of them late',
      what='a session that registers the galaxy model clears its directory, also when another session has just filled it',
      edits=[(B13, "                paths._newproppath('behroozi13')\n",
              "                paths._newproppath('behroozi13')\n"
              "                # Anything there already is left over from something else\n"
              "                for name in os.listdir(paths.props['behroozi13']):\n"
              "                    os.remove(os.path.join(paths.props['behroozi13'],name))\n")],
      demo=OTHER + r'''
CODE = """
import numpy as np, os, time
real, n = np.load, []
def load(*a, **k):
    if not n:
        n.append(1)
        open('here', 'w').close()
        end = time.time() + 15
        while not os.path.exists('go') and time.time() < end:
            time.sleep(0.05)
    return real(*a, **k)
np.load = load
from simim.galprops import sfr_behroozi13
"""
real, p = Paths._newproppath, []
def new(self, item, *a, **k):
    if item == 'behroozi13' and not p:
        p.append(other(CODE))
        wait_for('here', p[0], 40)
    return real(self, item, *a, **k)
from simim.galprops import sfr_behroozi13 as m
make = m.behroozi13_base._make_spline_files
def slow(self):
    flag('go')
    p and p[0].wait()
    return make(self)
Paths._newproppath = new
m.behroozi13_base._make_spline_files = slow
m.behroozi13_base()
flag('go')
need(p and p[0].wait() == 0, 'the other session failed')
'''),
 dict(id='grid-own-side', property='P12', needs='gridding a snapshot in the other units than its default',
      what='the default extent of a grid follows the default units of the handler instead of those asked for',
      edits=[(SIM, "        if in_h_units:\n            side = self.box_edge_h\n        else:\n            side = self.box_edge_no_h\n", "        side = self.box_edge\n")],
      demo=r'''
simulation([halos(30), halos(30, seed=1)])
from simim.siminterface import SimHandler
s = SimHandler('TNG100-1').get_snap(0)
a = s.grid('mass', in_h_units=True, res=75. / 5)
b = SimHandler('TNG100-1', in_h_units=True).get_snap(0).grid('mass', res=75. / 5)
need(a.grid.shape == b.grid.shape and np.allclose(a.grid, b.grid), 'the grid depends on the default units')
'''),
 dict(id='make-uses-memory', property='P13', needs='a property made in memory first, then made again with other arguments and written',
      what='snapshots which hold a property of the name in memory are not evaluated again before it is written',
      edits=[(SIM, "            handler.make_property(property=property,\n                                  rename=rename,\n                                  kw_remap=kw_remap,\n"
              "                                  other_kws=other_kws,\n                                  overwrite=overwrite,\n                                  use_all_inds=use_all_inds)\n",
              "            if not (write and overwrite and all(handler.has_loaded(name) for name in names)):\n"
              "                handler.make_property(property=property,\n                                      rename=rename,\n                                      kw_remap=kw_remap,\n"
              "                                      other_kws=other_kws,\n                                      overwrite=overwrite,\n                                      use_all_inds=use_all_inds)\n")],
      demo=r'''
simulation([halos(5), halos(6, seed=1)])
from simim.siminterface import SimHandler
from simim.galprops.galprops import Prop
p = Prop('q', lambda mass, c=1.: mass * c, ['mass'], give_args_in_h_units=True, function_return_in_h_units=True)
s = SimHandler('TNG100-1', init_snaps=True)
s.make_property(p, use_all_inds=True)
s.make_property(p, other_kws={'c': 3.}, overwrite=True, use_all_inds=True, write=True)
t = SimHandler('TNG100-1').get_snap(1)
need(np.allclose(t.return_property('q'), 3 * t.return_property('mass', in_h_units=True), rtol=1e-5), 'the values written are old ones')
'''),
 dict(id='set-shares-results', property='P22', needs='the result of one operation on a set kept while another is done',
      what='the dictionary returned by operations of a set is filled again by the next operation',
      edits=[(LCH, "        for attr,doc in attrs:\n            def f(*args, attr=attr, **kwargs):\n                result = {}\n",
              "        for attr,doc in attrs:\n            def f(*args, attr=attr, result={}, **kwargs):\n")],
      demo=r'''
for k in range(2):
    cone(k)
from simim.lightcone import LCIterator
it = LCIterator('TNG100-1', 'set')
a = it.return_property('mass')
keep = {k: np.copy(v) for k, v in a.items()}
b = it.return_property('redshift')
need(all(np.array_equal(a[k], keep[k]) for k in keep), 'results of one operation were changed by the next')
'''),
 dict(id='bins-sorted-in-place', property='P19', needs='redshift bins given as an array that is not in order',
      what='the array of redshift bins of the caller is sorted in place',
      edits=[(LCH, "        redshift_bins = np.sort(redshift_bins)\n", "        redshift_bins = np.asarray(redshift_bins)\n        redshift_bins.sort()\n")],
      demo=r'''
cone(0)
from simim.lightcone import LCHandler
h = LCHandler('TNG100-1', 'set', 0)
e = np.array([0.9, 0.3, 0.6])
h.eval_stat_evo(e, np.sum, ['a'], kw_remap={'a': 'mass'})
need(np.array_equal(e, [0.9, 0.3, 0.6]), 'the bins of the caller were changed')
'''),
 dict(id='overwritten-units', property='P10', needs='a property replaced in memory by one of another unit',
      what='a property made again under the same name keeps the units and h dependence of the first',
      edits=[(HND, "            self.properties_units[newname] = property.units[name]\n            self.properties_h_dependence[newname] = property.h_dependence[name]\n            if not overwrite_names[i]:\n",
              "            if not overwrite_names[i]:\n                self.properties_units[newname] = property.units[name]\n                self.properties_h_dependence[newname] = property.h_dependence[name]\n")],
      demo=r'''
simulation([halos(5), halos(6, seed=1)])
from simim.siminterface import SimHandler
from simim.galprops.galprops import Prop
def prop(hd):
    return Prop(prop_name='q', prop_function=lambda mass: np.ones(len(mass)), kwargs=['mass'], units='Mpc/h', h_dependence=hd,
                give_args_in_h_units=True, function_return_in_h_units=True)
s = SimHandler('TNG100-1').get_snap(0)
s.make_property(prop(0))
s.make_property(prop(-1), overwrite=True)
need(np.allclose(s.return_property('q', in_h_units=False), 1 / 0.7), 'wrong units')
'''),
 dict(id='split-lines', property='P01', needs='a location whose path holds a character that str.splitlines takes for the end of a line',
      what='lists of locations are split at every character Unicode calls a line boundary',
      edits=[(PTH, "            for line in file.readlines():\n", "            for line in file.read().splitlines(keepends=True):\n")],
      demo=r'''
d = os.path.join(SCRATCH, 'a\u2028b\x0cc')
os.mkdir(d)
Paths()._newproppath('mine', d, checkoverwrite=False)
need(Paths().props.get('mine') == d, 'the location came back as %r' % Paths().props)
'''),
 dict(id='no-first-cone', property='P02', needs='an existing set whose light cone 0 is not there',
      what='a set is taken as free when it has no light cone 0, even without overwriting',
      edits=[(LCM, "        elif os.path.exists(self.lc_path) and overwrite==False:\n",
              "        elif os.path.exists(os.path.join(self.lc_path,'lc_0000.hdf5')) and overwrite==False:\n")],
      demo=r'''
simulation([halos(30), halos(30, seed=1)])
cone(3)
from simim.lightcone import LCMaker
need(fails(lambda: LCMaker('TNG100-1', 'set', openangle=0.5, redshift_max=0.5, overwrite=False), ValueError), 'a set of that name exists')
'''),
 dict(id='groups-glob', property='P03', needs='a file of the user next to the raw data of a snapshot, named after it',
      what='the raw files of a snapshot are looked up by a prefix',
      edits=[(ILL, "        return [os.path.join('groups_{:03d}'.format(snapshot))]\n",
              "        raw = os.path.join(self.path,'raw')\n        return [f for f in os.listdir(raw) if f.startswith('groups_{:03d}'.format(snapshot))]\n")],
      demo=r'''
from simim.siminterface import IllustrisCatalogs
c = IllustrisCatalogs('TNG100-1', 'key', snaps=[13])
os.makedirs(os.path.join(c.path, 'raw', 'groups_013'))
open(os.path.join(c.path, 'raw', 'groups_013.notes'), 'w').close()
os.makedirs(os.path.join(c.path, 'raw', 'groups_013 corrected'))
need(c._get_rawsnapfiles(13) == ['groups_013'], 'the raw files of snapshot 13 are %s' % c._get_rawsnapfiles(13))
'''),
]
