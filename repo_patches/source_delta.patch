From ab089e754f163adf45f1b7dc91729c721e546a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 01/35] fix: keep recorded data locations exact and complete

Paths were cut at their first space, a half-written listing or root file
stopped every later session from starting, and the root was recorded
before the directories it needs existed.  Listings and the root file are
now replaced atomically and read back exactly.
---
 simim/_fileio.py | 17 +++++++++++++++
 simim/_paths.py  | 55 +++++++++++++++++++++++++++++++++---------------
 2 files changed, 55 insertions(+), 17 deletions(-)
 create mode 100644 simim/_fileio.py

diff --git a/simim/_fileio.py b/simim/_fileio.py
new file mode 100644
index 0000000..f4b48aa
--- /dev/null
+++ b/simim/_fileio.py
@@ -0,0 +1,17 @@
+"""Small helpers for writing files that must never be seen half-written"""
+import contextlib
+import os
+
+@contextlib.contextmanager
+def atomic_path(path):
+    """Give a temporary path to write to, which is moved to path once 
+    everything has been written and discarded if anything goes wrong"""
+
+    tmp_path = '{}.part'.format(path)
+    try:
+        yield tmp_path
+        os.replace(tmp_path,path)
+    except BaseException:
+        if os.path.exists(tmp_path):
+            os.remove(tmp_path)
+        raise
diff --git a/simim/_paths.py b/simim/_paths.py
index 1761fe5..4ef92d2 100644
--- a/simim/_paths.py
+++ b/simim/_paths.py
@@ -1,27 +1,50 @@
 import os
+import sys
 try:
     from importlib.resources import files
 except:
     from importlib_resources import files
 
+from simim._fileio import atomic_path
+
+def _open_path_file(path,mode='r'):
+    """Open a file holding path names, so that any name comes back exactly"""
+    return open(path,mode,newline='\n',encoding=sys.getfilesystemencoding(),
+                errors=sys.getfilesystemencodeerrors())
+
 def _checkload_root_file(path):
     """Check if root path file exists and read file contents"""
     endpoint = None
     if os.path.exists(path):
-        with open(path) as file:
-            endpoint = file.readlines()[0].replace('\n','')
-    return endpoint
+        with _open_path_file(path) as file:
+            endpoint = file.readline().replace('\n','')
+    # An empty file is the same as no file
+    return endpoint or None
 
 def _checkload_path_file(path):
     """Check if a path listing file exists and read file contents"""
     endpoint = {}
     if os.path.exists(path):
-        with open(path) as file:
+        with _open_path_file(path) as file:
             for line in file.readlines():
-                line_split = line.replace('\n','').split(' ')
-                endpoint[line_split[0]] = line_split[1]
+                # The path is everything after the first space
+                line_split = line.replace('\n','').split(' ',1)
+                if len(line_split) == 2:
+                    endpoint[line_split[0]] = line_split[1]
     return endpoint
 
+def _add_to_path_file(path,name,new_path):
+    """Add a path to a listing file, leaving the file complete at all times"""
+    lines = ''
+    if os.path.exists(path):
+        with _open_path_file(path) as file:
+            lines = file.read()
+        if lines and lines[-1] != '\n':
+            lines += '\n'
+    with atomic_path(path) as tmp_path:
+        with _open_path_file(tmp_path,'w') as file:
+            file.write(lines + '{} {}\n'.format(name,new_path))
+
 class _SimIMPaths():
     """Class to handle the paths to simulations"""
 
@@ -97,11 +120,6 @@ class _SimIMPaths():
                 print("Files will be saved in {}".format(os.path.join(root,'simim_resources')))
                 answer = input("Is this okay? y/n: ")
 
-        # Save the root location
-        with open(self.root_file,'w') as file:
-            file.write(root)
-        self.root = root
-
         for path in [os.path.join(root,'simim_resources'),
                       os.path.join(root,'simim_resources','.paths'),
                       os.path.join(root,self.sim_ext),
@@ -110,6 +128,12 @@ class _SimIMPaths():
             if not os.path.exists(path):
                 os.mkdir(path)
 
+        # Save the root location, now that everything it should contain exists
+        with atomic_path(self.root_file) as tmp_path:
+            with _open_path_file(tmp_path,'w') as file:
+                file.write(root)
+        self.root = root
+
         self._load_paths()
 
     def _newsimpath(self,sim,new_path='auto',checkoverwrite=True):
@@ -146,8 +170,7 @@ class _SimIMPaths():
         new_path = os.path.abspath(new_path)
 
         # Write the new path name
-        with open(os.path.join(self.root,self.simpath_ext),'a') as file:
-            file.write('{} {}\n'.format(sim,new_path))
+        _add_to_path_file(os.path.join(self.root,self.simpath_ext),sim,new_path)
 
         self.sims[sim] = new_path
 
@@ -185,8 +208,7 @@ class _SimIMPaths():
         new_path = os.path.abspath(new_path)
 
         # Write the new path name
-        with open(os.path.join(self.root,self.lcpath_ext),'a') as file:
-            file.write('{} {}\n'.format(sim,new_path))
+        _add_to_path_file(os.path.join(self.root,self.lcpath_ext),sim,new_path)
 
         self.lcs[sim] = new_path
 
@@ -224,8 +246,7 @@ class _SimIMPaths():
         new_path = os.path.abspath(new_path)
 
         # Write the new path name
-        with open(os.path.join(self.root,self.proppath_ext),'a') as file:
-            file.write('{} {}\n'.format(item,new_path))
+        _add_to_path_file(os.path.join(self.root,self.proppath_ext),item,new_path)
 
         self.props[item] = new_path
 
-- 
2.43.0


From 175b1d11c7238c058c4dc18b81f5730660eea670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 02/35] fix: list formatted snapshots only once they are
 complete

A formatting run that stopped part-way left snapshots listed (or groups
present) that were missing or incomplete, and the next run skipped them.
---
 simim/siminterface/_rawsiminterface.py | 42 ++++++++++++++------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index e7ca882..2a693cb 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -421,14 +421,17 @@ class SimCatalogs():
                 for key in self.metadata.keys():
                     file.attrs[key] = self.metadata[key]
 
-                file.attrs['snapshots'] = self.snap_meta
+                # Snapshots are listed as they are completed
+                file.attrs['snapshots'] = self.snap_meta[:0]
+                file.attrs['number_snaps'] = 0
 
         # Cases 2 and 3 - need to first get the fields to write and figure out what snaps are called for and get current metadata
         # Then sort through the requested snaps and decide whether to overwrite them or not when duplicated
         else:
             with h5py.File(os.path.join(self.path,'data.hdf5'), "r") as file:
-                add_snaps = np.array([i for i in self.snaps if 'Snapshot {}'.format(i) not in file.keys()], dtype='int')
-                replace_snaps = np.array([i for i in self.snaps if 'Snapshot {}'.format(i) in file.keys()], dtype='int')
+                done_snaps = [i for i in file.attrs['snapshots']['index'] if 'Snapshot {}'.format(i) in file.keys()]
+                add_snaps = np.array([i for i in self.snaps if i not in done_snaps], dtype='int')
+                replace_snaps = np.array([i for i in self.snaps if i in done_snaps], dtype='int')
 
                 data_fields = [k for k in file[list(file.keys())[0]].keys()]
                 self.all_fields = {**self.basic_fields}
@@ -438,26 +441,12 @@ class SimCatalogs():
                     if other_fields_start[f][0][0] in data_fields:
                         self.other_fields[f] = other_fields_start[f]
                         self.all_fields[f] = other_fields_start[f]
-                
-                meta_snaps = file.attrs['snapshots']
-                meta_numsnaps = file.attrs['number_snaps']
 
             if overwrite:
                 snaps_to_do = np.concatenate((add_snaps,replace_snaps))
             else:
                 snaps_to_do = add_snaps
 
-            # Keeps old metadata - maybe I should be updating all metadata though since some things are 
-            # relative to other snaps
-            meta_snaps = meta_snaps[~np.isin(meta_snaps['index'], snaps_to_do)]
-            new_snaps = self.snap_meta[np.isin(self.snap_meta['index'], snaps_to_do)]
-            meta_snaps = np.concatenate((meta_snaps, new_snaps))
-            meta_snaps = np.sort(meta_snaps,order='index')
-
-            with h5py.File(os.path.join(self.path,'data.hdf5'), "a") as file:
-                file.attrs['snapshots'] = meta_snaps
-                file.attrs['number_snaps'] = len(meta_snaps)
-
         if len(snaps_to_do) == 0:
             warnings.warn("No new data has been added to file")
             return
@@ -543,9 +532,9 @@ class SimCatalogs():
             # Now put it in the file
             with h5py.File(os.path.join(self.path,'data.hdf5'), "a") as file:
 
-                if "Snapshot {}".format(snap) in file.keys():
-                    del file["Snapshot {}".format(snap)]
-                snap_grp = file.create_group("Snapshot {}".format(snap))
+                # The group only gets its name when it is complete, if something
+                # goes wrong before then it is never part of the file
+                snap_grp = file.create_group(None)
 
                 snap_grp.create_dataset('mass_cuts',data=mass_cuts)
 
@@ -571,6 +560,19 @@ class SimCatalogs():
 
                 snap_meta = self.snap_meta[self.snap_meta['index'] == snap]
                 snap_grp.attrs['metadata'] = snap_meta
+
+                # Swap in the new group - keeping old metadata for other snaps, maybe
+                # I should be updating all metadata though since some things are 
+                # relative to other snaps
+                meta_snaps = file.attrs['snapshots']
+                meta_snaps = meta_snaps[meta_snaps['index'] != snap]
+                if "Snapshot {}".format(snap) in file.keys():
+                    file.attrs['snapshots'] = meta_snaps
+                    del file["Snapshot {}".format(snap)]
+                file["Snapshot {}".format(snap)] = snap_grp
+                meta_snaps = np.sort(np.concatenate((meta_snaps, snap_meta)),order='index')
+                file.attrs['number_snaps'] = len(meta_snaps)
+                file.attrs['snapshots'] = meta_snaps
             
             # Delete raw data if requested
             if realtime_clean_raw:
-- 
2.43.0


From 481f3ab365de857a96d419e06d5c09bd49153fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 03/35] fix: resolve the largest covered redshift in z_to_snap

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 8702687..7600204 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -362,7 +362,7 @@ class SimHandler():
 
         if z > np.amax(self.z_bins) or z < 0:
             raise ValueError("z out of range")
-        bin = np.digitize(z,self.z_bins)-1
+        bin = np.minimum(np.digitize(z,self.z_bins),len(self.z_bin_snaps))-1
         bin_id = self.z_bin_snaps[bin]
 
         return bin_id
-- 
2.43.0


From bf79665c16f1c3ed449375521a714633df232b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 04/35] fix: delete raw data without passing paths through a
 shell

Paths with spaces or shell characters made rm miss the raw data or delete
something else.
---
 simim/_fileio.py                       | 8 ++++++++
 simim/siminterface/_rawsiminterface.py | 5 +++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/simim/_fileio.py b/simim/_fileio.py
index f4b48aa..eea043c 100644
--- a/simim/_fileio.py
+++ b/simim/_fileio.py
@@ -1,6 +1,7 @@
 """Small helpers for writing files that must never be seen half-written"""
 import contextlib
 import os
+import shutil
 
 @contextlib.contextmanager
 def atomic_path(path):
@@ -15,3 +16,10 @@ def atomic_path(path):
         if os.path.exists(tmp_path):
             os.remove(tmp_path)
         raise
+
+def remove_path(path):
+    """Remove a file or a directory and its content, if it exists"""
+    if os.path.isdir(path) and not os.path.islink(path):
+        shutil.rmtree(path)
+    elif os.path.lexists(path):
+        os.remove(path)
diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index 2a693cb..6197a18 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -7,6 +7,7 @@ import astropy.units as u
 import h5py
 import numpy as np
 
+from simim._fileio import remove_path
 from simim._paths import _SimIMPaths
 from simim.siminterface._sims import _checksim
 
@@ -337,7 +338,7 @@ class SimCatalogs():
 
         # Remove stuff
         file_path = os.path.join(self.path,'raw')
-        os.system("rm -r {}".format(file_path))
+        remove_path(file_path)
 
     def format(self,remake=False,overwrite=False,basic=False,realtime_clean_raw=False,realtime_clean_raw_check=True):
         """Convert the unformatted simulation data into the uniform format used by 
@@ -579,6 +580,6 @@ class SimCatalogs():
                 rawsnapfiles = self._get_rawsnapfiles(snap)
                 for file in rawsnapfiles:
                     file_path = os.path.join(self.path,'raw',file)
-                    os.system("rm -r {}".format(file_path))
+                    remove_path(file_path)
 
 
-- 
2.43.0


From bc466bef29247b992e11e09fb196e2efc39582b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 05/35] fix: only keep complete files, listings and metadata
 when downloading

Interrupted or failed transfers left partial files that were then taken as
already downloaded, error pages and truncated listings were cached, and file
listings were not matched to snapshot numbers in redshift order.
---
 simim/_fileio.py                      | 10 ++++++++
 simim/siminterface/illustris.py       |  6 +++--
 simim/siminterface/uchuu.py           | 37 ++++++++++++++++-----------
 simim/siminterface/universemachine.py | 28 ++++++++++++++------
 4 files changed, 56 insertions(+), 25 deletions(-)

diff --git a/simim/_fileio.py b/simim/_fileio.py
index eea043c..6b84899 100644
--- a/simim/_fileio.py
+++ b/simim/_fileio.py
@@ -3,6 +3,8 @@ import contextlib
 import os
 import shutil
 
+import numpy as np
+
 @contextlib.contextmanager
 def atomic_path(path):
     """Give a temporary path to write to, which is moved to path once 
@@ -17,6 +19,14 @@ def atomic_path(path):
             os.remove(tmp_path)
         raise
 
+def save_npy(path,data):
+    """Save an array (or object) so that path is either complete or not
+    changed at all"""
+
+    with atomic_path(path) as tmp_path:
+        with open(tmp_path,'wb') as file:
+            np.save(file,data)
+
 def remove_path(path):
     """Remove a file or a directory and its content, if it exists"""
     if os.path.isdir(path) and not os.path.islink(path):
diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index d37573a..ac7b344 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -4,6 +4,7 @@ import warnings
 
 import numpy as np
 
+from simim._fileio import save_npy
 from simim.siminterface import _illustris_datahandling as idh
 from simim.siminterface._rawsiminterface import SimCatalogs, Snapshot
 from simim.siminterface._sims import _checksim, _illsims, _tngsims
@@ -487,8 +488,9 @@ class IllustrisCatalogs(SimCatalogs):
             snap_meta[i]['transverse_distance_max'] = snap_meta_classes[i].transverse_distance_max * self.h
         self.snap_meta = snap_meta
 
-        np.save(self.meta_path,self.metadata)
-        np.save(self.snap_meta_path,self.snap_meta)
+        # The metadata file is what we check for, so it goes last
+        save_npy(self.snap_meta_path,self.snap_meta)
+        save_npy(self.meta_path,self.metadata)
 
 def illustris_catalogs(*args, **kwargs):
     warnings.warn("illustris_catalogs is depricated, use IllustrisCatalogs instead")
diff --git a/simim/siminterface/uchuu.py b/simim/siminterface/uchuu.py
index da962a7..a010bc0 100644
--- a/simim/siminterface/uchuu.py
+++ b/simim/siminterface/uchuu.py
@@ -8,6 +8,7 @@ import requests
 import h5py
 import numpy as np
 
+from simim._fileio import atomic_path, save_npy
 from simim.siminterface._rawsiminterface import SimCatalogs, Snapshot
 
 class UchuuCatalogs(SimCatalogs):
@@ -50,19 +51,23 @@ class UchuuCatalogs(SimCatalogs):
         else:
             # Get file names and scale factors from the interweb
             try:
-                html_text = requests.get(self.webpage+'SFR/').text
+                response = requests.get(self.webpage+'SFR/')
+                response.raise_for_status()
+                html_text = response.text
                 web_files = [t for t in html_text.split(' ') if fnmatch(t, "*Uchuu_UM_*data1.h5*")]
                 web_files = [t.split('"')[1] for t in web_files]
                 self.web_files = np.array(web_files)
-            except:
-                raise ValueError("Unable to access file names on {}".format(self.webpage))
 
-            # Order files with highest redshift first
-            redshifts = np.array([float(t.split('_')[2].strip('z').replace('p','.')) for t in self.web_files])
-            order = np.argsort(-redshifts)
-            self.web_files = self.web_files[order]
+                # Order files with highest redshift first
+                redshifts = np.array([float(t.split('_')[2].strip('z').replace('p','.')) for t in self.web_files])
+                order = np.argsort(-redshifts)
+                self.web_files = self.web_files[order]
+            except Exception as e:
+                raise ValueError("Unable to access file names on {}".format(self.webpage)) from e
+            if len(self.web_files) < len(self.allsnaps):
+                raise ValueError("Incomplete list of files received from {}".format(self.webpage))
 
-            np.save(self.web_path,self.web_files)
+            save_npy(self.web_path,self.web_files)
 
         # Identify keys that will require unit conversions
         # For UM these are mostly empty because everything's in units
@@ -242,7 +247,7 @@ class UchuuCatalogs(SimCatalogs):
 
     def _get_rawsnapfiles(self, snapshot):
         """Get path to a snapshot's raw file"""
-        rawsnapfiles = [self.web_files[snapshot].replace('data1',f'data{i}') for i in range(1,12)]
+        rawsnapfiles = [self.web_files[snapshot].replace('data1',f'data{i}') for i in range(1,13)]
         return rawsnapfiles
 
     def download_meta(self, redownload=False):
@@ -326,8 +331,9 @@ class UchuuCatalogs(SimCatalogs):
             snap_meta[i]['transverse_distance_max'] = snap_meta_classes[i].transverse_distance_max * self.h
         self.snap_meta = snap_meta
 
-        np.save(self.meta_path,self.metadata)
-        np.save(self.snap_meta_path,self.snap_meta)
+        # The metadata file is what we check for, so it goes last
+        save_npy(self.snap_meta_path,self.snap_meta)
+        save_npy(self.meta_path,self.metadata)
 
     def download(self, redownload=False, datafiles=[1,2,3]):
         """Download UniverseMachine-uchuu catalogs
@@ -355,10 +361,10 @@ class UchuuCatalogs(SimCatalogs):
         else:
             self.download_snaps = [(s,[]) for s in self.snaps]
             for i,snap in enumerate(self.snaps):
-                file_path = os.path.join(self.path,'raw',self.web_files[snap])
+                file_name = self.web_files[snap]
                 
                 for df in datafiles:
-                    if os.path.exists(file_path.replace('data1',f'data{df}')):
+                    if os.path.exists(os.path.join(self.path,'raw',file_name.replace('data1',f'data{df}'))):
                         warnings.warn(f"Skipping snapshot {snap} / datafile {df} as it appears to exist already")
                     else:
                         self.download_snaps[i][1].append(df)
@@ -367,12 +373,13 @@ class UchuuCatalogs(SimCatalogs):
         # Download each snap
         for i in range(len(self.download_snaps)):
             snap_id, snap_df = self.download_snaps[i]
-            file_path = os.path.join(self.path,'raw',self.web_files[snap_id])
             for df in snap_df:
                 if df <= 3:
                     webpage = self.webpage + 'SFR/'
                 if df > 3:
                     webpage = self.webpage + 'SFH/'
                 print("downloading snapshot {} of {} ({})".format(i+1,len(self.download_snaps),self.web_files[snap_id].replace('data1',f'data{df}')))
-                urlretrieve(webpage+self.web_files[snap_id].replace('data1',f'data{df}'),file_path.replace('data1',f'data{df}'))
+                file_name = self.web_files[snap_id].replace('data1',f'data{df}')
+                with atomic_path(os.path.join(self.path,'raw',file_name)) as part_path:
+                    urlretrieve(webpage+file_name,part_path)
 
diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index b601357..364d5d6 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -12,6 +12,7 @@ except:
 
 import numpy as np
 
+from simim._fileio import atomic_path, save_npy
 from simim.siminterface._rawsiminterface import SimCatalogs, Snapshot
 from simim.siminterface._sims import _checksim
 
@@ -77,13 +78,21 @@ class UniversemachineCatalogs(SimCatalogs):
         else:
             # Get file names and scale factors from the interweb
             try:
-                html_text = requests.get(self.webpage).text
+                response = requests.get(self.webpage)
+                response.raise_for_status()
+                html_text = response.text
                 web_files = [t for t in html_text.split(' ') if fnmatch(t, "*sfr_catalog_*")]
                 web_files = [t.split('"')[1] for t in web_files]
                 self.web_files = np.array(web_files)
-            except:
-                raise ValueError("Unable to access file names on {}".format(self.webpage))
-            np.save(self.web_path,self.web_files)
+
+                # Order files with highest redshift (smallest scale factor) first
+                a = np.array([float(t.split('_')[-1][:-4]) for t in self.web_files])
+                self.web_files = self.web_files[np.argsort(a)]
+            except Exception as e:
+                raise ValueError("Unable to access file names on {}".format(self.webpage)) from e
+            if len(self.web_files) < len(self.allsnaps):
+                raise ValueError("Incomplete list of files received from {}".format(self.webpage))
+            save_npy(self.web_path,self.web_files)
 
         # Identify keys that will require unit conversions
         # For UM these are mostly empty because everythings in units
@@ -378,8 +387,9 @@ class UniversemachineCatalogs(SimCatalogs):
             snap_meta[i]['transverse_distance_max'] = snap_meta_classes[i].transverse_distance_max * self.h
         self.snap_meta = snap_meta
 
-        np.save(self.meta_path,self.metadata)
-        np.save(self.snap_meta_path,self.snap_meta)
+        # The metadata file is what we check for, so it goes last
+        save_npy(self.snap_meta_path,self.snap_meta)
+        save_npy(self.meta_path,self.metadata)
 
     def download(self, redownload=False):
         """Download UniverseMachine catalogs"""
@@ -409,9 +419,11 @@ class UniversemachineCatalogs(SimCatalogs):
             print("downloading item {} of {} ({})".format(i+1,len(self.download_snaps),self.web_files[snap]))
             file_path = os.path.join(self.path,'raw',self.web_files[snap])
             if self.sim == '_testbox':
-                shutil.copy(self.webpage.joinpath(self.web_files[snap]),file_path)
+                with atomic_path(file_path) as part_path:
+                    shutil.copy(self.webpage.joinpath(self.web_files[snap]),part_path)
             else:
-                urlretrieve(self.webpage+self.web_files[snap],file_path)
+                with atomic_path(file_path) as part_path:
+                    urlretrieve(self.webpage+self.web_files[snap],part_path)
 
 # Wrapper for back compatibility
 def universemachine_catalogs(*args, **kwargs):
-- 
2.43.0


From f04bc0f13ed5382b688c0eac1989668f514216b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 06/35] fix: check every Illustris file when deciding what to
 download

Only the first file of a snapshot was checked, partial files were kept,
re-downloading never replaced anything and data paths with spaces broke the
wget command.
---
 simim/siminterface/illustris.py | 39 +++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index ac7b344..6050be8 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -1,10 +1,12 @@
 import os
 import requests
+import shlex
 import warnings
 
+import h5py
 import numpy as np
 
-from simim._fileio import save_npy
+from simim._fileio import remove_path, save_npy
 from simim.siminterface import _illustris_datahandling as idh
 from simim.siminterface._rawsiminterface import SimCatalogs, Snapshot
 from simim.siminterface._sims import _checksim, _illsims, _tngsims
@@ -339,6 +341,26 @@ class IllustrisCatalogs(SimCatalogs):
         """Get path to a snapshot's raw file"""
         return [os.path.join('groups_{:03d}'.format(snapshot))]
 
+    def _missing_files(self, snapshot):
+        """List the files still to be downloaded for a snapshot, including
+        files that exist but are incomplete"""
+        
+        file_path = os.path.join(self.path,'raw','groups_{:03d}'.format(snapshot),self.raw_fname+'{:03d}.{}.hdf5')
+        number_files = self.metadata['groupcat_number_files'] if self.metadata else 1
+
+        missing = []
+        j = 0
+        while j < number_files:
+            try:
+                # hdf5 won't open truncated files
+                with h5py.File(file_path.format(snapshot,j),'r') as file:
+                    if not self.metadata:
+                        number_files = file['Header'].attrs['NumFiles']
+            except (OSError, KeyError):
+                missing.append(file_path.format(snapshot,j))
+            j += 1
+        return missing
+
     def download(self, redownload=False):
         """Download Illustris/TNG subhalo (group) catalogs"""
 
@@ -351,8 +373,7 @@ class IllustrisCatalogs(SimCatalogs):
         else:
             self.download_snaps = []
             for i in self.snaps:
-                file_path = os.path.join(self.path,'raw','groups_{:03d}'.format(i))
-                if os.path.exists(os.path.join(file_path,self.raw_fname+'{:03d}.0.hdf5'.format(i))):
+                if len(self._missing_files(i)) == 0:
                     warnings.warn("Skipping snapshot {} as it appears to exist already".format(i))
                 else:
                     self.download_snaps.append(i)
@@ -371,13 +392,19 @@ class IllustrisCatalogs(SimCatalogs):
             wget_cmd += '--header="API-Key: {}" '.format(self.api_key)
             wget_cmd += '"http://www.tng-project.org/api/{}'.format(self.sim)
             wget_cmd += '/files/groupcat-{}/?format=api" '.format(i)
-            wget_cmd += '-P {}'.format(file_path)
+            wget_cmd += '-P {}'.format(shlex.quote(file_path))
 
             # Download the data and check that it all arrives, retry if it doesn't
             print("\nDownloading Snapshot {}".format(i))
             check_pass = False
             try:
+                # wget won't replace files, so get rid of any we don't want to keep
+                if redownload:
+                    remove_path(file_path)
+                    os.mkdir(file_path)
                 while not check_pass:
+                    for file in self._missing_files(i):
+                        remove_path(file)
                     os.system(wget_cmd)
 
                     # If there's no meta-data saved we can't check if the right
@@ -385,9 +412,7 @@ class IllustrisCatalogs(SimCatalogs):
                     if not self.metadata:
                         check_pass = True
                     else:
-                        check = [os.path.exists(os.path.join(file_path,self.raw_fname+'{:03d}.{}.hdf5'.format(i,j)))
-                                 for j in range(self.metadata['groupcat_number_files'])]
-                        check_pass = np.all(check)
+                        check_pass = len(self._missing_files(i)) == 0
 
                     if not check_pass:
                         print("Not all files downloaded correctly, retrying")
-- 
2.43.0


From 40ba3c08f44fb8045110167880d8177d20e4f4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 07/35] fix: give formatted properties the units and values
 they are labelled with

UniverseMachine radii were labelled kpc/h but stored in Mpc/h, binary star
formation rates were read as integers and positions were not wrapped into the
box; Illustris black hole accretion rates were converted the wrong way and
sfr_2hr held the half mass radius values.
---
 simim/siminterface/illustris.py       | 5 ++---
 simim/siminterface/universemachine.py | 6 +++---
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 6050be8..91785d7 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -194,7 +194,7 @@ class IllustrisCatalogs(SimCatalogs):
                             'SubhaloSFRinMaxRad':[('sfr_maxr','f','Msun/yr',0)],
                             # Same as SubhaloSFR, but restricted to cells within
                             # twice the stellar half mass radius.
-                            'SubhaloSFRinHalfRad':[('sfr_2hr','f','Msun/yr',0)],
+                            'SubhaloSFRinRad':[('sfr_2hr','f','Msun/yr',0)],
 
                             # Mass-weighted average metallicity (Mz/Mtot, where
                             # Z = any element above He) of the star particles bound
@@ -256,9 +256,8 @@ class IllustrisCatalogs(SimCatalogs):
         def kpc_to_mpc(x,h):
             return x / 1000
         def illustris_bhmassunit(x,h):
-            return x * 0.978
+            return x * 1e10 / 0.978
         self.transform_keys = {'SubhaloBHMass':power_10,
-                               'SubhaloBHMdot':power_10,
                                'SubhaloMass':power_10,
                                'SubhaloMassInHalfRad':power_10,
                                'SubhaloMassInHalfRadType':power_10,
diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index 364d5d6..7e0900e 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -146,7 +146,7 @@ class UniversemachineCatalogs(SimCatalogs):
             'vmp':[('vmax_peak','f','km/s',0)],
 
             #R: Halo radius (BN98 vir, comoving kpc/h)
-            'r':[('r','f','kpc/h',-1)],
+            'r':[('r','f','Mpc/h',-1)],
 
             #Rank1: halo rank in Delta_vmax (see UniverseMachine paper)
             'rank1':[('Rank1','f','None',0)],
@@ -280,7 +280,7 @@ class UniversemachineCatalogs(SimCatalogs):
                                     ('mp', 'f4'), ('m', 'f4'), ('v', 'f4'), ('r', 'f4'),
                                     ('rank1', 'f4'), ('rank2', 'f4'), ('ra', 'f4'),
                                     ('rarank', 'f4'), ('a_uv', 'f4'), ('sm', 'f4'),
-                                    ('icl', 'f4'), ('sfr', 'i4'), ('obs_sm', 'f4'),
+                                    ('icl', 'f4'), ('sfr', 'f4'), ('obs_sm', 'f4'),
                                     ('obs_sfr', 'f4'), ('obs_uv', 'f4'), ('empty', 'f4')],
                              align=True)
 
@@ -291,7 +291,7 @@ class UniversemachineCatalogs(SimCatalogs):
         subhalos = {}
         for key in fields:
             subhalos[key] = data_raw[key]
-        subhalos['pos'][:,0:3] % self.box_edge
+        subhalos['pos'][:,0:3] %= self.box_edge
         n_halos = len(data_raw)
 
         return subhalos, n_halos
-- 
2.43.0


From 18a8e57b6a04e6e703981fbd789554d765eb934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 08/35] fix: match Illustris snapshot metadata to snapshots in
 any order

A list of snapshots that was not in order was permuted twice, and a short
one was saved as if it were complete.
---
 simim/siminterface/illustris.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 91785d7..704e2a3 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -479,10 +479,11 @@ class IllustrisCatalogs(SimCatalogs):
         for i in snap_meta_raw:
             snap_meta_classes.append(Snapshot(i['number'],i['redshift'],self.metadata))
             numbers.append(i['number'])
-        snap_meta_classes = [snap_meta_classes[i] for i in np.argsort(numbers)]
         
         order = np.argsort(numbers)
         snap_meta_classes = [snap_meta_classes[i] for i in order if numbers[i] in self.snaps]
+        if len(snap_meta_classes) < len(self.snaps):
+            raise ValueError("Incomplete list of snapshots received from {}".format(base_url))
 
         snap_meta_classes[0].dif_higherz_snap('max')
         snap_meta_classes[-1].dif_lowerz_snap(0)
-- 
2.43.0


From 946016cd9aa73c8216c2b50ffd871fe856c437cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:11 +0000
Subject: [PATCH 09/35] fix: read text catalogues holding a single halo

---
 simim/siminterface/universemachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index 7e0900e..52b061d 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -241,7 +241,7 @@ class UniversemachineCatalogs(SimCatalogs):
                                     ('m','f'),('v','f'),('mp','f'),('vmp','f'),('r','f'),
                                     ('rank1','f'),('rank2','f'),('ra','f'),('rarank','f'),
                                     ('sm','f'),('icl','f'),('sfr','f'),('obs_sm','f'),('obs_sfr','f'),('obs_ssfr','f'),('smhm','f'),('obs_uv','f')])
-        data_raw = np.loadtxt(os.path.join(path,self.web_files[snapshot]), dtype=dtype_raw, comments='#')
+        data_raw = np.loadtxt(os.path.join(path,self.web_files[snapshot]), dtype=dtype_raw, comments="#", ndmin=1)
         subhalos = {}
         for key in fields:
             subhalos[key] = data_raw[key]
-- 
2.43.0


From 4da67fc8d0a43df21a4ad6cc2157e067cad29938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:56 +0000
Subject: [PATCH 10/35] fix: allow braces in the data path when checking
 Illustris files

---
 simim/siminterface/illustris.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 704e2a3..3dc21c6 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -344,19 +344,20 @@ class IllustrisCatalogs(SimCatalogs):
         """List the files still to be downloaded for a snapshot, including
         files that exist but are incomplete"""
         
-        file_path = os.path.join(self.path,'raw','groups_{:03d}'.format(snapshot),self.raw_fname+'{:03d}.{}.hdf5')
+        file_path = os.path.join(self.path,'raw','groups_{:03d}'.format(snapshot))
         number_files = self.metadata['groupcat_number_files'] if self.metadata else 1
 
         missing = []
         j = 0
         while j < number_files:
+            file_name = os.path.join(file_path,self.raw_fname+'{:03d}.{}.hdf5'.format(snapshot,j))
             try:
                 # hdf5 won't open truncated files
-                with h5py.File(file_path.format(snapshot,j),'r') as file:
+                with h5py.File(file_name,'r') as file:
                     if not self.metadata:
                         number_files = file['Header'].attrs['NumFiles']
             except (OSError, KeyError):
-                missing.append(file_path.format(snapshot,j))
+                missing.append(file_name)
             j += 1
         return missing
 
-- 
2.43.0


From 58144246a45d6e9cf4c47107a203995383cceb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 11/35] fix: replace incomplete Illustris files also when their
 number is unknown

---
 simim/siminterface/illustris.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 3dc21c6..f1761d9 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -347,18 +347,31 @@ class IllustrisCatalogs(SimCatalogs):
         file_path = os.path.join(self.path,'raw','groups_{:03d}'.format(snapshot))
         number_files = self.metadata['groupcat_number_files'] if self.metadata else 1
 
-        missing = []
-        j = 0
-        while j < number_files:
-            file_name = os.path.join(file_path,self.raw_fname+'{:03d}.{}.hdf5'.format(snapshot,j))
+        def check(file_name):
             try:
                 # hdf5 won't open truncated files
                 with h5py.File(file_name,'r') as file:
-                    if not self.metadata:
-                        number_files = file['Header'].attrs['NumFiles']
+                    return file['Header'].attrs['NumFiles']
             except (OSError, KeyError):
+                return None
+
+        missing = []
+        j = 0
+        while j < number_files:
+            file_name = os.path.join(file_path,self.raw_fname+'{:03d}.{}.hdf5'.format(snapshot,j))
+            n = check(file_name)
+            if n is None:
                 missing.append(file_name)
+            elif not self.metadata:
+                number_files = n
             j += 1
+
+        # Without meta-data or the first file we don't know how many to expect
+        if os.path.exists(file_path):
+            for file_name in sorted(os.listdir(file_path)):
+                file_name = os.path.join(file_path,file_name)
+                if file_name not in missing and check(file_name) is None:
+                    missing.append(file_name)
         return missing
 
     def download(self, redownload=False):
-- 
2.43.0


From b4207d1d1362f99a996aafbc6be1c01f7ad0a4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:53 +0000
Subject: [PATCH 12/35] fix: only ever keep complete galaxy model tables

---
 simim/galprops/sfr_behroozi13.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/simim/galprops/sfr_behroozi13.py b/simim/galprops/sfr_behroozi13.py
index 9a291c0..ac299be 100644
--- a/simim/galprops/sfr_behroozi13.py
+++ b/simim/galprops/sfr_behroozi13.py
@@ -8,6 +8,7 @@ except:
 import numpy as np
 from scipy.interpolate import RectBivariateSpline
 
+from simim._fileio import save_npy
 from simim._paths import _SimIMPaths
 from simim.galprops.log10normal import log10normal
 from simim._pltsetup import *
@@ -39,7 +40,8 @@ class behroozi13_base():
             self.path = paths.props['behroozi13']
 
             # Make required files if needed
-            if not os.path.exists(os.path.join(self.path,'sfr.npy')):
+            needed = ['sfr.npy','stellarmass.npy','mass_axis.npy','redshift_axis.npy']
+            if not all(os.path.exists(os.path.join(self.path,file)) for file in needed):
                 self._make_spline_files()
 
             # Load spline stuff
@@ -95,10 +97,10 @@ class behroozi13_base():
 
         sfr = np.power(10,sfr)
 
-        np.save(os.path.join(self.path,'sfr.npy'),sfr)
-        np.save(os.path.join(self.path,'stellarmass.npy'),stellarmass)
-        np.save(os.path.join(self.path,'mass_axis.npy'),mass)
-        np.save(os.path.join(self.path,'redshift_axis.npy'),redshift)
+        save_npy(os.path.join(self.path,'sfr.npy'),sfr)
+        save_npy(os.path.join(self.path,'stellarmass.npy'),stellarmass)
+        save_npy(os.path.join(self.path,'mass_axis.npy'),mass)
+        save_npy(os.path.join(self.path,'redshift_axis.npy'),redshift)
 
     @pltdeco
     def plot_grid(self,prop='sfr'):
-- 
2.43.0


From cae3ea0f6ce89694922a300e5e932eb757aeac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 13/35] fix: keep properties of a handler consistent with
 memory and disk

Properties made, loaded, unloaded, written or deleted kept stale lists, units
or values, and a failed write could leave a partially written property.
---
 simim/_handlers.py | 76 +++++++++++++++++++++++++++++++---------------
 1 file changed, 52 insertions(+), 24 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 2bd3339..572f3f1 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -162,8 +162,12 @@ class Handler():
                 property_value = file[self.groupname][property_name][:]
                 if len(property_value) == 0:
                     property_value = property_value.flatten()
+                units = file[self.groupname][property_name].attrs['units']
+                h_dependence = file[self.groupname][property_name].attrs['h dependence']
 
             self.properties_loaded[property_name] = property_value
+            self.properties_units[property_name] = units
+            self.properties_h_dependence[property_name] = h_dependence
 
     def unload_property(self, *property_names):
         """Remove a property from memory (does not erase from file on disk)
@@ -181,8 +185,29 @@ class Handler():
         for property_name in property_names:
             if not property_name in self.properties_loaded.keys():
                 warnings.warn("Property {} is not loaded".format(property_name))
+                continue
 
-            self.properties_loaded.pop(property_name, None)
+            # What remains is whatever is on disk
+            if property_name in self.properties_saved:
+                with h5py.File(self.path,'r') as file:
+                    units = file[self.groupname][property_name].attrs['units']
+                    h_dependence = file[self.groupname][property_name].attrs['h dependence']
+                self.properties_units[property_name] = units
+                self.properties_h_dependence[property_name] = h_dependence
+                self.properties_loaded.pop(property_name, None)
+            else:
+                self._forget_property(property_name)
+
+    def _forget_property(self, property_name):
+        """Remove a property that no longer exists in memory or on disk from
+        all the lists of properties"""
+
+        self.properties_all = [i for i in self.properties_all if i != property_name]
+        self.properties_saved = [i for i in self.properties_saved if i != property_name]
+        self.properties_generated = [i for i in self.properties_generated if i != property_name]
+        self.properties_loaded.pop(property_name, None)
+        self.properties_units.pop(property_name, None)
+        self.properties_h_dependence.pop(property_name, None)
 
     def return_property(self, property_name, use_all_inds=False, in_h_units=None):
         """Load a property from file and return
@@ -231,6 +256,8 @@ class Handler():
         elif property_name in self.properties_saved:
             with h5py.File(self.path,'r') as file:
                 value = file[self.groupname][property_name][:][inds]
+                if not in_h_units:
+                    h_exp = file[self.groupname][property_name].attrs['h dependence']
                 if len(value) == 0:
                     value = value.flatten()
                 if h_exp != 0:
@@ -323,8 +350,11 @@ class Handler():
             name = property.names[i]
             newname = names[i]
 
-            prop_values = np.empty(self.nhalos_all,dtype=all_values[i].dtype)
-            prop_values[:] = np.nan
+            if len(inds) == self.nhalos_all:
+                prop_values = np.empty(self.nhalos_all,dtype=all_values[i].dtype)
+            else:
+                # only floats can be nan
+                prop_values = np.full(self.nhalos_all,np.nan,dtype=np.result_type(all_values[i].dtype,np.float16))
             prop_values[inds] = all_values[i]
 
             self.properties_loaded[newname] = prop_values
@@ -373,17 +403,24 @@ class Handler():
                     raise ValueError("Property {} already exists".format(property_name))
 
             with h5py.File(self.path,'a') as file:
-                if not property_name in file[self.groupname].keys():
-                    file[self.groupname].create_dataset(property_name,data=property_value,dtype=dtype)
-                else:
-                    file[self.groupname][property_name][:] = property_value
+                group = file[self.groupname]
 
-                file[self.groupname][property_name].attrs['units'] = self.properties_units[property_name]
-                file[self.groupname][property_name].attrs['h dependence'] = self.properties_h_dependence[property_name]
-                file[self.groupname][property_name].attrs['userdefined'] = True
+                # Something else may have added it since this instance was initialized
+                if property_name in group.keys() and not overwrite:
+                    raise ValueError("Property {} already exists".format(property_name))
+
+                # Nothing has the property's name until it is complete
+                dataset = group.create_dataset(None,data=property_value,dtype=dtype)
+                dataset.attrs['units'] = self.properties_units[property_name]
+                dataset.attrs['h dependence'] = self.properties_h_dependence[property_name]
+                dataset.attrs['userdefined'] = True
+
+                if property_name in group.keys():
+                    del group[property_name]
+                group[property_name] = dataset
 
-                if not property_name in self.properties_saved:
-                    self.properties_saved.append(property_name)
+            if not property_name in self.properties_saved:
+                self.properties_saved.append(property_name)
 
     def delete_property(self,*property_names):
         """Remove a property from the saved file on the disk
@@ -403,20 +440,11 @@ class Handler():
                 raise ValueError("Property {} is not in the saved file".format(property_name))
 
             with h5py.File(self.path,'a') as file:
-                if property_name not in file[self.groupname].keys():
-                    raise ValueError("This property cannot be deleted")
-                else:
+                # Something else may have removed it since this instance was initialized
+                if property_name in file[self.groupname].keys():
                     del file[self.groupname][property_name]
 
-                    self.properties_saved = [key for key in file[self.groupname].keys()]
-                    properties_all_new = []
-                    for i in self.properties_all:
-                        if i != property_name:
-                            properties_all_new.append(i)
-                    self.properties_all = properties_all_new
-
-                    self.properties_units.pop(property_name,None)
-                    self.properties_h_dependence.pop(property_name,None)
+            self._forget_property(property_name)
 
     def set_property_range(self,property_name=None,pmin=-np.inf,pmax=np.inf,reset=True, in_h_units=None):
         """Set a range in a given property to be the active indices. If no
-- 
2.43.0


From 373bec94974b4ea9f0513f222c45fdf8c55204f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 14/35] fix: use all h dependences and keyword arguments of a
 MultiProp

---
 simim/galprops/galprops.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/galprops.py b/simim/galprops/galprops.py
index f4c950d..ab13ab0 100644
--- a/simim/galprops/galprops.py
+++ b/simim/galprops/galprops.py
@@ -65,7 +65,7 @@ class MultiProp():
         if len(h_dependence)==1:
             self.h_dependence = {key:h_dependence[0] for key in self.names}
         elif len(h_dependence)==len(self.names):
-            self.units = {self.names[i]:h_dependence[i] for i in range(len(self.names))}
+            self.h_dependence = {self.names[i]:h_dependence[i] for i in range(len(self.names))}
         else:
             raise ValueError("h_dependence shape not compatible with prop_names shape")
 
@@ -121,6 +121,7 @@ class MultiProp():
 
         if self.wrap:
             vals = [vals]
+        vals = list(vals)
         if len(vals) != len(self.names):
             raise ValueError("prop_function does not return a number of properties matching prop_names")
 
@@ -136,7 +137,7 @@ class MultiProp():
     def evaluate(self,target,use_all_inds=False,kw_remap={},kw_arguments={}):
         """See evaluate_all - identical functionality. This
         is just a wrapper to match the prop subclass"""
-        return self.evaluate_all(target,use_all_inds,kw_remap)
+        return self.evaluate_all(target,use_all_inds,kw_remap,kw_arguments)
 
 # Function should return an array of length n, where n is the number
 # of objects it is evaluated over, or should be of shape n x m
-- 
2.43.0


From 256ce734f4b60e39f1d4e8c35dc96c0a9c6dc819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 15/35] fix: include all halos above a mass limit and keep the
 unit convention of a simulation

---
 simim/lightcone/lcmaker.py       | 8 ++++----
 simim/siminterface/simhandler.py | 9 +++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 257055c..d398f06 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -188,7 +188,7 @@ class GenericLCMaker():
 
                     # Load the snapshot data for the basic fields
                     snap_grp = sim_file[snap_name]
-                    mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'])
+                    mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'],in_h_units=True)
 
                     masses = snap_grp['mass'][:mass_index]
                     mass_indices_final = np.where(masses >= self.minimum_mass)[0]
@@ -292,7 +292,7 @@ class GenericLCMaker():
 
                     # Load the snapshot data for the basic fields
                     snap_grp = sim_file[snap_name]
-                    mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'])
+                    mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'],in_h_units=True)
 
                     masses = snap_grp['mass'][:mass_index]
                     mass_indices_final = np.where(masses >= self.minimum_mass)[0]
@@ -668,7 +668,7 @@ class LCMaker(GenericLCMaker):
 
                 # Load the snapshot data for the basic fields
                 snap_grp = sim_file[snap_name]
-                mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'])
+                mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'],in_h_units=True)
 
                 masses = snap_grp['mass'][:mass_index]
                 mass_indices_final = np.where(masses >= self.minimum_mass)[0]
@@ -1018,7 +1018,7 @@ class SphereMaker(GenericLCMaker):
 
                 # Load the snapshot data for the basic fields
                 snap_grp = sim_file[snap_name]
-                mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'])
+                mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'],in_h_units=True)
 
                 masses = snap_grp['mass'][:mass_index]
                 mass_indices_final = np.where(masses >= self.minimum_mass)[0]
diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 7600204..0850312 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -256,7 +256,7 @@ class SimHandler():
 
         self.init_snaps = init_snaps
         if self.init_snaps:
-            self.initialize_all_snaps(redo=True)
+            self.initialize_all_snaps(remake=True)
 
     def initialize_all_snaps(self,remake=False):
         """Initialize SnapHandlers for each snapshot
@@ -413,13 +413,14 @@ class SimHandler():
             if in_h_units:
                 mass_check = mass
             else:
-                mass_check = mass / self.h
+                mass_check = mass * self.h
             vals = mass_cuts['min_mass'] - mass_check
             vals = vals[vals>0]
             if len(vals) < 1:
                 index = 0
             elif len(vals) == len(mass_cuts):
-                index = mass_cuts['index'][-1]
+                # Below the lowest cut, so everything has to be included
+                index = len(file["Snapshot {}".format(snap)]['mass'])
             else:
                 index = mass_cuts['index'][len(vals)]
 
@@ -446,7 +447,7 @@ class SimHandler():
         else:
             snap = snap_meta['index']
             redshift = snap_meta['redshift']
-            return SnapHandler(self.path+'/data.hdf5',snap,redshift,self.cosmo,self.box_edge_h)
+            return SnapHandler(self.path+'/data.hdf5',snap,redshift,self.cosmo,self.box_edge_h,in_h_units=self.default_in_h_units)
 
     def get_snap_from_z(self,z):
         """Return a SnapHandler instance for the snapshot closest to a requested redshift
-- 
2.43.0


From f3cee52945816e7e74bec3f7b3083f2604ab5de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 16/35] fix: check every snapshot before writing or deleting a
 property of a simulation

---
 simim/siminterface/simhandler.py | 86 +++++++++++++++++++++-----------
 1 file changed, 56 insertions(+), 30 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 0850312..8ca0cb4 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -549,6 +549,28 @@ class SimHandler():
 
         if not self.init_snaps and not write:
             raise ValueError("This handler instance was not initialized with snapshots available")
+
+        if isinstance(rename,str):
+            rename = [rename]
+        if rename is None:
+            names = property.names
+        elif len(rename) != property.n_props:
+            raise ValueError("Length of rename list doesn't match number of properties")
+        else:
+            names = rename
+
+        # Check what is there already before changing anything
+        if write:
+            for name in names:
+                userdefined = self._find_saved_property(name)
+                if len(userdefined) > 0:
+                    if not overwrite:
+                        raise ValueError("Property {} already exists".format(name))
+                    elif not all(userdefined.values()):
+                        raise ValueError("Property {} is not userd-defined and cannot be overwritten".format(name))
+                    else:
+                        warnings.warn("Property {} already exists, overwriting".format(name))
+
         for i in range(len(self.snap_meta)):
             snap = self.snap_meta['index'][i]
             print("\033[1m"+"Assigning props for Snapshot {}.  ".format(snap)+"\033[0m",end='\r')
@@ -562,30 +584,33 @@ class SimHandler():
                                   use_all_inds=use_all_inds)
 
             if write:
-                if isinstance(rename,str):
-                    rename = [rename]
-                if rename is None:
-                    names = property.names
-                elif len(rename) != property.n_props:
-                    raise ValueError("Length of rename list doesn't match number of properties")
-                else:
-                    names = rename
-
-                if i==0:
-                    with h5py.File(handler.path,'a') as file:
-                        for name in names:
-                            if name in file[handler.groupname].keys():
-                                if not overwrite:
-                                    raise ValueError("Property {} already exists".format(name))
-                                elif 'userdefined' not in file[handler.groupname][name].attrs.keys():
-                                    raise ValueError("Property {} is not userd-defined and cannot be overwritten".format(name))
-                                else:
-                                    warnings.warn("Property {} already exists, overwriting".format(name))
-
                 handler.write_property(*names,overwrite=overwrite,dtype=writedtype)
                 handler.unload_property(*names)
         print("")
 
+    def _find_saved_property(self,property_name):
+        """Find which snapshots have a property saved to disk
+        
+        Parameters
+        ----------
+        property_name : str
+            The name of the field to be checked
+
+        Returns
+        -------
+        userdefined : dict
+            Dictionary with the index-number of each snapshot containing the
+            property as the keys, and whether it is user-defined as the values
+        """
+
+        userdefined = {}
+        with h5py.File(os.path.join(self.path,'data.hdf5'),'r') as file:
+            for snap in self.snap_meta['index']:
+                group = file['Snapshot {}'.format(snap)]
+                if property_name in group.keys():
+                    userdefined[snap] = bool(group[property_name].attrs.get('userdefined',False))
+        return userdefined
+
     def delete_property(self,*property_names):
         """Remove a property from the saved file on the disk for all simulation snapshots
 
@@ -599,20 +624,21 @@ class SimHandler():
         None
         """
 
+        # Check everything can be deleted before changing anything
+        found = {}
+        for name in property_names:
+            found[name] = self._find_saved_property(name)
+            if len(found[name]) == 0:
+                raise ValueError("Property {} is not in the saved file".format(name))
+            elif not all(found[name].values()):
+                raise ValueError("Property {} is not userd-defined and cannot be deleted".format(name))
+
         for i in range(len(self.snap_meta)):
             snap = self.snap_meta['index'][i]
             handler = self.get_snap(snap)
 
-            if i==0:
-                with h5py.File(handler.path,'a') as file:
-                    for name in property_names:
-                        if name in file[handler.groupname].keys():
-                            if 'userdefined' not in file[handler.groupname][name].attrs.keys():
-                                raise ValueError("Property {} is not userd-defined and cannot be deleted".format(name))
-                            elif not file[handler.groupname][name].attrs['userdefined']:
-                                raise ValueError("Property {} is not userd-defined and cannot be deleted".format(name))
-
-            handler.delete_property(*property_names)
+            # It may be gone from some snapshots if this was tried before
+            handler.delete_property(*[name for name in property_names if snap in found[name] or name in handler.properties_saved])
 
     def snap_stat(self, stat_function, kwargs, kw_remap={}, other_kws={},
                   give_args_in_h_units=None, use_all_inds=False, snaps=None):
-- 
2.43.0


From b2fd5cac57b31bf632e4373fb0af36b80d5cc2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:41 +0000
Subject: [PATCH 17/35] fix: add complete and correctly oriented properties to
 light cones

---
 simim/lightcone/lcmaker.py | 139 +++++++++++++++++++++++--------------
 1 file changed, 88 insertions(+), 51 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index d398f06..e2f601b 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -137,8 +137,7 @@ class GenericLCMaker():
                     'spin_x','spin_y','spin_z',
                     'cm_x','cm_y','cm_z']
 
-        with h5py.File(os.path.join(self.lc_path,'lc_0000.hdf5'),'r') as file:
-            old_lc_keys = [i for i in file['Lightcone Full'].keys()]
+        old_lc_keys = self._keys_in_all()
 
         new_lc_keys = []
         for key in keys:
@@ -151,26 +150,14 @@ class GenericLCMaker():
             else:
                 new_lc_keys.append(key)
 
-        keys = np.sort(new_lc_keys)
+        keys = np.unique(new_lc_keys)
 
         # Note in LC files that we're adding properties
-        for i in range(self.n):
-            with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(i)),'a') as file:
-                file.attrs['status_extra_initialized'] = True
-                file.attrs['status_extra_completed'] = False
-
-                shape = file['Indexing']['sim_indices'].shape
-                chunks = file['Indexing']['sim_indices'].chunks
-                if shape[0] < chunks[0]:
-                    chunks = shape
-                for key in keys:
-                    file['Lightcone Full'].create_dataset(key,shape=shape,chunks=chunks)
-                    if key == 'masscheck':
-                        file['Lightcone Full'][key].attrs['units'] = self.sim_handler.key_units['mass']
-                        file['Lightcone Full'][key].attrs['h dependence'] = self.sim_handler.key_h_dependence['mass']
-                    else:
-                        file['Lightcone Full'][key].attrs['units'] = self.sim_handler.key_units[key]
-                        file['Lightcone Full'][key].attrs['h dependence'] = self.sim_handler.key_h_dependence[key]
+        units = {}
+        for key in keys:
+            sim_key = 'mass' if key == 'masscheck' else key
+            units[key] = (self.sim_handler.key_units[sim_key],self.sim_handler.key_h_dependence[sim_key],sim_key)
+        self._start_extra(units)
 
         # Open simulation file
         with h5py.File(os.path.join(self.sim_path,'data.hdf5'),"r") as sim_file:
@@ -216,13 +203,10 @@ class GenericLCMaker():
                             indexing = indexing[indexing['snap']==snap_meta['index']]
 
                             # Append the data
-                            lc_file['Lightcone Full'][key][start:start+len(indexing)] = values[indexing['index']]
+                            lc_file['Lightcone Extra'][key][start:start+len(indexing)] = values[indexing['index']]
 
         # Note in LC files that we're done
-        for i in range(self.n):
-            with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(i)),'a') as file:
-                file.attrs['status_extra_initialized'] = True
-                file.attrs['status_extra_completed'] = True
+        self._finish_extra()
 
     def add_pos_properties(self,*keys):
         """Select additional properties to include in the light cone for
@@ -245,9 +229,8 @@ class GenericLCMaker():
         # Make sure the keys exist, but aren't already included
         pos_keys = ['pos','v','spin','cm']
 
-        with h5py.File(os.path.join(self.lc_path,'lc_0000.hdf5'),'r') as file:
-            old_lc_keys = [i[:-2] for i in file['Lightcone Full'].keys() if i[:-2] in pos_keys]
-        old_lc_keys = np.unique(old_lc_keys)
+        all_keys = self._keys_in_all()
+        old_lc_keys = [i for i in pos_keys if all(i+subkey in all_keys for subkey in ['_x','_y','_z'])]
 
         new_lc_keys = []
         for key in keys:
@@ -258,23 +241,14 @@ class GenericLCMaker():
             else:
                 new_lc_keys.append(key)
 
-        keys = np.sort(new_lc_keys)
+        keys = np.unique(new_lc_keys)
 
         # Note in LC files that we're adding properties
-        for i in range(self.n):
-            with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(i)),'a') as file:
-                file.attrs['status_extra_initialized'] = True
-                file.attrs['status_extra_completed'] = False
-
-                shape = file['Indexing']['sim_indices'].shape
-                chunks = file['Indexing']['sim_indices'].chunks
-                if shape[0] < chunks[0]:
-                    chunks = shape
-                for key in keys:
-                    for subkey in ['_x','_y','_z']:
-                        file['Lightcone Full'].create_dataset(key+subkey,shape=shape,chunks=chunks)
-                        file['Lightcone Full'][key+subkey].attrs['units'] = self.sim_handler.key_units[key+subkey]
-                        file['Lightcone Full'][key+subkey].attrs['h dependence'] = self.sim_handler.key_h_dependence[key+subkey]
+        units = {}
+        for key in keys:
+            for subkey in ['_x','_y','_z']:
+                units[key+subkey] = (self.sim_handler.key_units[key+subkey],self.sim_handler.key_h_dependence[key+subkey],None)
+        self._start_extra(units)
 
         # Open simulation file
         with h5py.File(os.path.join(self.sim_path,'data.hdf5'),"r") as sim_file:
@@ -322,21 +296,84 @@ class GenericLCMaker():
                             # Trim values to the indices
                             lc_values = values[:,indexing['index']]
 
-                            # Get the matrices and do transformation
-                            los_matrix = lc_file.attrs['line of sight transformation matrix']
-                            pa_matrix = lc_file.attrs['position angle transformation matrix']
-                            lc_values = np.matmul(los_matrix,lc_values)
-                            lc_values = np.matmul(pa_matrix,lc_values)
+                            # Reflect in the same way as the positions
+                            lc_values = lc_values * lc_file.attrs['box flips'][:,np.newaxis]
 
+                            # Get the matrices and do transformation (spheres
+                            # are not rotated)
+                            if 'line of sight transformation matrix' in lc_file.attrs:
+                                los_matrix = lc_file.attrs['line of sight transformation matrix']
+                                pa_matrix = lc_file.attrs['position angle transformation matrix']
+                                lc_values = np.matmul(los_matrix,lc_values)
+                                lc_values = np.matmul(pa_matrix,lc_values)
+                                lc_values = lc_values[[1,2,0]]
 
                             # Append the data
-                            lc_file['Lightcone Full'][key+'_x'][start:start+len(indexing)] = lc_values[1]
-                            lc_file['Lightcone Full'][key+'_y'][start:start+len(indexing)] = lc_values[2]
-                            lc_file['Lightcone Full'][key+'_z'][start:start+len(indexing)] = lc_values[0]
+                            lc_file['Lightcone Extra'][key+'_x'][start:start+len(indexing)] = lc_values[0]
+                            lc_file['Lightcone Extra'][key+'_y'][start:start+len(indexing)] = lc_values[1]
+                            lc_file['Lightcone Extra'][key+'_z'][start:start+len(indexing)] = lc_values[2]
 
         # Note in LC files that we're done
+        self._finish_extra()
+
+    def _keys_in_all(self):
+        """List the fields present in every light cone"""
+
+        keys = None
+        for i in range(self.n):
+            with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(i)),'r') as file:
+                new_keys = [key for key in file['Lightcone Full'].keys()]
+            keys = new_keys if keys is None else [key for key in keys if key in new_keys]
+        return keys
+
+    def _start_extra(self,keys):
+        """Make room for extra fields in every light cone, they only become
+        part of it in _finish_extra
+
+        Parameters
+        ----------
+        keys : dict
+            The units, h dependence, and the field of the simulation giving the
+            data type (or None) for each field
+        """
+
+        dtypes = {}
+        with h5py.File(os.path.join(self.sim_path,'data.hdf5'),'r') as sim_file:
+            snap_grp = sim_file['Snapshot {}'.format(self.snapshots_use[0]['index'])]
+            for key in keys:
+                if keys[key][2] is not None:
+                    dtypes[key] = snap_grp[keys[key][2]].dtype
+
+        for i in range(self.n):
+            with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(i)),'a') as file:
+                file.attrs['status_extra_initialized'] = True
+                file.attrs['status_extra_completed'] = False
+
+                # Left over from an attempt that did not finish
+                if 'Lightcone Extra' in file:
+                    del file['Lightcone Extra']
+                extra = file.create_group('Lightcone Extra')
+
+                shape = file['Indexing']['sim_indices'].shape
+                chunks = file['Indexing']['sim_indices'].chunks
+                if shape[0] == 0:
+                    chunks = None
+                elif shape[0] < chunks[0]:
+                    chunks = shape
+                for key in keys:
+                    extra.create_dataset(key,shape=shape,chunks=chunks,dtype=dtypes.get(key))
+                    extra[key].attrs['units'] = keys[key][0]
+                    extra[key].attrs['h dependence'] = keys[key][1]
+
+    def _finish_extra(self):
+        """Make the extra fields part of every light cone"""
+
         for i in range(self.n):
             with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(i)),'a') as file:
+                for key in file['Lightcone Extra'].keys():
+                    if key not in file['Lightcone Full']:
+                        file['Lightcone Full'][key] = file['Lightcone Extra'][key]
+                del file['Lightcone Extra']
                 file.attrs['status_extra_initialized'] = True
                 file.attrs['status_extra_completed'] = True
 
-- 
2.43.0


From b5fdbb6ba66b0791344b5d43c98e2d32aa5c93bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 18/35] fix: make light cones available only when they are
 complete

---
 simim/lightcone/lcmaker.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index e2f601b..5f0c5fd 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -876,9 +876,11 @@ class LCMaker(GenericLCMaker):
         for i in range(n):
             with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(i)),'a') as file:
 
-                lc = file.create_group('Lightcone Full')
+                # Only named once it is complete
+                lc = file.create_group(None)
                 for key in file['Lightcone Basic'].keys():
                     lc[key] = file['Lightcone Basic'][key]
+                file['Lightcone Full'] = lc
                 file.attrs['status_basic'] = True
                 file.attrs['finished'] = dtime.isoformat(' ')
 
@@ -1176,9 +1178,11 @@ class SphereMaker(GenericLCMaker):
         for i in range(n):
             with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(i)),'a') as file:
 
-                lc = file.create_group('Lightcone Full')
+                # Only named once it is complete
+                lc = file.create_group(None)
                 for key in file['Lightcone Basic'].keys():
                     lc[key] = file['Lightcone Basic'][key]
+                file['Lightcone Full'] = lc
                 file.attrs['status_basic'] = True
                 file.attrs['finished'] = dtime.isoformat(' ')
 
-- 
2.43.0


From 8680fe897ad09a01e1e23ef9fc3541efa6ba67c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 19/35] fix: leave halos behind the observer out of light cones

---
 simim/lightcone/lcmaker.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 5f0c5fd..22b366f 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -791,8 +791,13 @@ class LCMaker(GenericLCMaker):
                         iter_max_distance = start_distance + (iter_ind+1)*use_distance/iters
                         iter_max_distance = np.amin([iter_max_distance,end_distance])
 
+                        # Halos the same distance behind the observer are not
+                        # part of the field
+                        in_front = (iter_position[:,0] + start_distance
+                                    + iter_ind*use_distance/iters - buffer_distance) > 0
                         indices2 = np.where((candidate_distances < iter_max_distance)
-                                            & (candidate_distances >= iter_min_distance))
+                                            & (candidate_distances >= iter_min_distance)
+                                            & in_front)
 
                         selected_indices = np.intersect1d(indices1,indices2)
                         selected_distances = candidate_distances[selected_indices]
-- 
2.43.0


From bd944eb47ea15164d8560eb42f32ab6c753d10cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 20/35] fix: keep light cones clear of every face of the
 simulation box

---
 simim/lightcone/lcmaker.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 22b366f..7c0bfed 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -529,10 +529,12 @@ class LCMaker(GenericLCMaker):
             LOS_unit = LOS_vec/np.linalg.norm(LOS_vec)
 
             # Now test that there's enough room in the box for this thing...
-            angles = np.arctan([LOS_unit[1]/LOS_unit[0], LOS_unit[2]/LOS_unit[0], LOS_unit[2]/LOS_unit[1],
-                                LOS_unit[0]/LOS_unit[1], LOS_unit[0]/LOS_unit[2], LOS_unit[1]/LOS_unit[2]])
+            # The field has to stay clear of the box face that the line of
+            # sight is closest to being parallel to, and the spherical surfaces
+            # between which halos are selected curve toward the observer
+            angle = np.arcsin(np.amin(LOS_unit))
 
-            buffer_coef = 1.01 * np.tan(openradius) / np.sin(np.amin(angles)) # 1.01 is just to provide some padding
+            buffer_coef = 1.01 * (np.tan(openradius) / np.tan(angle) + 1 - np.cos(openradius)) # 1.01 is just to provide some padding
 
             max_distance = np.amax(self.snapshots_use['transverse_distance_max'])
             buffer_distance_max = buffer_coef * max_distance
-- 
2.43.0


From bb54cfb12b4f5502342ef6e9c6b00ca21969d820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 21/35] fix: draw all scatter and duty cycles from the
 generator the caller passes

---
 simim/galprops/line_fir_yang.py  | 2 +-
 simim/galprops/sfr_behroozi13.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 55eb1be..1ab7ffc 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -57,7 +57,7 @@ def yang22(mass,redshift,line='CII',
 
     if fduty:
         f = _yang22_fduty(mass, redshift)
-        L[np.random.rand(len(L))>f] = 0
+        L[rng.random(len(L))>f] = 0
 
     return L
 
diff --git a/simim/galprops/sfr_behroozi13.py b/simim/galprops/sfr_behroozi13.py
index ac299be..fb34e42 100644
--- a/simim/galprops/sfr_behroozi13.py
+++ b/simim/galprops/sfr_behroozi13.py
@@ -172,7 +172,7 @@ class behroozi13_base():
         sfrval = self.sfr_function.ev(redshift,mass)
 
         if scatter:
-            sfrval = log10normal(sfrval, sigma_scatter, preserve_linear_mean=True)
+            sfrval = log10normal(sfrval, sigma_scatter, preserve_linear_mean=True, rng=rng)
 
         return sfrval
 
@@ -212,7 +212,7 @@ class behroozi13_base():
         stellarmassval = self.stellarmass_function.ev(redshift,mass)
 
         if scatter:
-            stellarmassval = log10normal(stellarmassval, sigma_scatter, preserve_linear_mean=True)
+            stellarmassval = log10normal(stellarmassval, sigma_scatter, preserve_linear_mean=True, rng=rng)
 
         return stellarmassval
 
-- 
2.43.0


From f490b33d7d0d9a679124ccd6b42d3ef8841881e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 22/35] fix: compute FIR luminosities in the CO SLED model

---
 simim/galprops/line_co.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simim/galprops/line_co.py b/simim/galprops/line_co.py
index 435d8cb..76041ff 100644
--- a/simim/galprops/line_co.py
+++ b/simim/galprops/line_co.py
@@ -257,7 +257,8 @@ def kamenetzky16(sfr,
     b_not         = np.array([ 0.8,  0.4,  0.9,  1.2,  2.1,  2.3,  2.8,  2.5,  2.7,  2.5,  2.7,  3.4,  2.2])
     b_sig_not     = np.array([ 0.8,  0.9,  0.4,  0.5,  0.5,  0.4,  0.4,  0.5,  0.5,  0.5,  0.6,  0.4,  0.5])
 
-    L_fir = sfr/d_mf*1e10*fircor
+    L_ir = sfr/d_mf*1e10
+    L_fir = L_ir*fircor
 
     a_gal = np.zeros((len(sfr), len(lines)))
     b_gal = np.zeros((len(sfr), len(lines)))
@@ -276,8 +277,8 @@ def kamenetzky16(sfr,
         a_gal[:,:] = a[lines]
         b_gal[:,:] = b[lines]
 
-    L_ir = L_ir.reshape(len(sfr),1) * np.ones((1,len(lines)))
-    log_L_co_p = (np.log10(L_ir) - b_gal) / a_gal
+    L_fir = L_fir.reshape(len(sfr),1) * np.ones((1,len(lines)))
+    log_L_co_p = (np.log10(L_fir) - b_gal) / a_gal
     L_co_p = np.power(10,log_L_co_p)
     L_co = L_co_p * 4.9e-5 * (f[lines]/constants.nu_co10)**3
 
-- 
2.43.0


From 990ead1dac71b08d5635052a73281a8c1c5ca1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 23/35] fix: look up CI parameters in their own table in the
 Yang et al. model

The CI parameters were selected with a mask made from the CO table, so
every CI line failed.
---
 simim/galprops/line_fir_yang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 1ab7ffc..70c3617 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -232,7 +232,7 @@ def _yang22_ci_fit(redshift,line):
 
     if line not in ['CI1-0','CI2-1']:
         raise ValueError('CI line not recognized')
-    pars = _yang22_ci_params[_yang22_co_params['name']==line][0]
+    pars = _yang22_ci_params[_yang22_ci_params['name']==line][0]
 
     return_scalar = np.isscalar(redshift)
     redshift = np.array(redshift)
-- 
2.43.0


From ce6ce48f784935261158cc3ad766f46292d471f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 24/35] fix: leave the selection and the caller's arguments
 alone when evaluating statistics

eval_stat_evo put zmin, zmax and volume into the caller's dictionary (or the
shared default one), removed keys of the caller's, did not restore the
number of active halos, and left the last bin selected when the function
raised.  plot filled in the caller's or the shared default plotkws.
---
 simim/_handlers.py           |  1 +
 simim/lightcone/lchandler.py | 49 ++++++++++++++++++------------------
 2 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 572f3f1..8075d50 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -612,6 +612,7 @@ class Handler():
         fig.subplots_adjust(left=.15,right=.95,bottom=.15,top=.95)
         ax.set(**axkws)
         
+        plotkws = dict(plotkws)
         if 'ls' not in plotkws and 'linestyle' not in plotkws:
             plotkws['ls'] = ''
         if 'marker' not in plotkws:
diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index ddc9032..90bde78 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -187,33 +187,34 @@ class LCHandler(Handler):
         inds_active_save = np.copy(self.inds_active)
 
         vals = []
-        for bin in range(len(redshift_bins)-1):
-            self.set_property_range('redshift',
-                                    pmin=redshift_bins[bin],
-                                    pmax=redshift_bins[bin+1],
-                                    reset=True)
-
-            if zmin_kw:
-                other_kws['zmin'] = redshift_bins[bin]
-            if zmax_kw:
-                other_kws['zmax'] = redshift_bins[bin+1]
-            if volume_kw:
-                other_kws['volume'] = self.volume(redshift_min = redshift_bins[bin],
+        try:
+            for bin in range(len(redshift_bins)-1):
+                self.set_property_range('redshift',
+                                        pmin=redshift_bins[bin],
+                                        pmax=redshift_bins[bin+1],
+                                        reset=True)
+
+                bin_kws = dict(other_kws)
+                if zmin_kw:
+                    bin_kws['zmin'] = redshift_bins[bin]
+                if zmax_kw:
+                    bin_kws['zmax'] = redshift_bins[bin+1]
+                if volume_kw:
+                    bin_kws['volume'] = self.volume(redshift_min = redshift_bins[bin],
                                                     redshift_max = redshift_bins[bin+1],
                                                     in_h_units=give_args_in_h_units)
 
-            vals.append(self.eval_stat(stat_function,
-                                       kwargs=kwargs,
-                                       kw_remap=kw_remap,
-                                       other_kws=other_kws,
-                                       use_all_inds=False,
-                                       give_args_in_h_units=give_args_in_h_units))
-
-            other_kws.pop('zmin',None)
-            other_kws.pop('zmax',None)
-
-        # Reset active inds
-        self.inds_active = np.copy(inds_active_save)
+                vals.append(self.eval_stat(stat_function,
+                                           kwargs=kwargs,
+                                           kw_remap=kw_remap,
+                                           other_kws=bin_kws,
+                                           use_all_inds=False,
+                                           give_args_in_h_units=give_args_in_h_units))
+
+        finally:
+            # Reset active inds
+            self.inds_active = inds_active_save
+            self.nhalos_active = len(self.inds_active)
 
         return redshift_bins, vals
 
-- 
2.43.0


From e40e852800d201f97c23423ae4a53c19cdabd544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 25/35] fix: reload saved grids as they were and never replace
 an existing file unasked

The overwrite check ignored the '.npz' numpy appends, grids with fewer units
than properties could not be reloaded, copies of reloaded grids shared their
object and property counts, axes not derived from the pixel size were lost,
and an interrupted save left part of a file behind.
---
 simim/_fileio.py     |  9 +++++++--
 simim/map/gridder.py | 46 ++++++++++++++++++++++++++++++++++++--------
 2 files changed, 45 insertions(+), 10 deletions(-)

diff --git a/simim/_fileio.py b/simim/_fileio.py
index 6b84899..69431e6 100644
--- a/simim/_fileio.py
+++ b/simim/_fileio.py
@@ -6,11 +6,16 @@ import shutil
 import numpy as np
 
 @contextlib.contextmanager
-def atomic_path(path):
+def atomic_path(path,reuse=True):
     """Give a temporary path to write to, which is moved to path once 
-    everything has been written and discarded if anything goes wrong"""
+    everything has been written and discarded if anything goes wrong. An
+    existing file with the temporary name is replaced, unless reuse is False"""
 
     tmp_path = '{}.part'.format(path)
+    n = 0
+    while not reuse and os.path.lexists(tmp_path):
+        n += 1
+        tmp_path = '{}.part{}'.format(path,n)
     try:
         yield tmp_path
         os.replace(tmp_path,path)
diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 84e099e..b8b34ad 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -6,9 +6,13 @@ import os
 import numpy as np
 from scipy.signal import fftconvolve
 
+from simim._fileio import atomic_path
 from simim._pltsetup import *
 from matplotlib import animation
 
+# Lists of arrays describing the axes of a grid
+_saved_axes = ['axes','axes_centers','fourier_axes','fourier_axes_centers']
+
 # To do
 # 1. Axis transformations and apropriate transformations of data
 # 5. Average instead of sum within a cell (e.g. for gridding timestreams)
@@ -532,24 +536,37 @@ class Grid():
         else:
             savefunc = np.savez
 
-        if os.path.exists(path) and not overwrite:
+        # numpy adds the extension if it isn't there
+        path = os.fspath(path)
+        if not path.endswith('.npz'):
+            path += '.npz'
+
+        if os.path.lexists(path) and not overwrite:
             raise ValueError("The file you are trying to create already exists")
 
         save_data = {'n_properties':self.n_properties,
                      'center_point':self.center_point,
                      'side_length':self.side_length,
                      'pixel_size':self.pixel_size,
+                     'n_pixels':self.n_pixels,
                      'axunits':self.axunits,
+                     'fourier_axunits':self.fourier_axunits,
                      'gridunits':self.gridunits,
                      'grid_active':self.grid_active,
                      'n_objects':self.n_objects,
                      'fourier_space':self.fourier_space,
                      'is_power_spectrum':self.is_power_spectrum
                      }
+        for name in _saved_axes:
+            for i,axis in enumerate(getattr(self,name)):
+                save_data['{}_{}'.format(name,i)] = axis
         if self.grid_active:
             save_data['grid'] = self.grid
 
-        savefunc(path,**save_data)
+        # Put the file in place only once it is complete
+        with atomic_path(path,reuse=False) as tmp_path:
+            with open(tmp_path,'wb') as file:
+                savefunc(file,**save_data)
 
 
     def add_new_prop(self,value=None):
@@ -2108,21 +2125,34 @@ class LoadGrid(Grid):
             filename from which the data is to be loaded
         """
 
-        input = np.load(path,allow_pickle=True)
+        with np.load(path,allow_pickle=True) as file:
+            input = {key:file[key] for key in file.files}
 
-        super().__init__(n_properties=input['n_properties'],
+        super().__init__(n_properties=input['n_properties'].item(),
                          center_point=input['center_point'],
                          side_length=input['side_length'],
                          pixel_size=input['pixel_size'],
-                         axunits=input['axunits'],
-                         gridunits=input['gridunits'])
+                         axunits=input['axunits'])
+        self.side_length = input['side_length']
+
+        # These don't always have one entry for each property
+        self.gridunits = input['gridunits']
+
+        # Not present in files saved by earlier versions
+        if 'n_pixels' in input:
+            self.n_pixels = input['n_pixels']
+            self.fourier_axunits = input['fourier_axunits']
+        for name in _saved_axes:
+            for i in range(self.n_dimensions):
+                if '{}_{}'.format(name,i) in input:
+                    getattr(self,name)[i] = input['{}_{}'.format(name,i)]
 
         if input['grid_active']:
             self.grid_active = True
             self.grid = input['grid']
-            self.n_objects = input['n_objects']
+            self.n_objects = input['n_objects'].item()
         self.fourier_space = input['fourier_space']
-        self.is_power_spectrum = input['is_power_spectrum']
+        self.is_power_spectrum = input['is_power_spectrum'].item()
 
 
 def gridder_function(positions, values = None, center_point = None, side_length = None, pixel_size = 1, setndims = None):
-- 
2.43.0


From 0c0a9a663d0eed26ffa4565740b55ec5f36fc325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 26/35] fix: observe the property of a field that was asked for

The property index given to add_field was checked against the number of
dimensions and ignored when mapping, grids with several properties could not
be copied, checked for units or mapped, and a detector called 'instrument'
replaced the defaults of the instrument instead of getting a response.
---
 simim/instrument/_helpers.py   | 2 +-
 simim/instrument/instrument.py | 9 ++++++---
 simim/map/gridder.py           | 9 ++++++++-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/simim/instrument/_helpers.py b/simim/instrument/_helpers.py
index a35f977..3cca116 100644
--- a/simim/instrument/_helpers.py
+++ b/simim/instrument/_helpers.py
@@ -89,7 +89,7 @@ def _check_grid_detector_compatibility(detector,grid,field_property_idx):
         warnings.warn("Detector unit for flux not specified. Assuming it matches grid unit")
     else:
         try: 
-            _check_unit(grid.gridunits,'flux')
+            _check_unit(grid.gridunits[field_property_idx],'flux')
         except:
             raise ValueError("grid flux unit not recognized")
         if grid.gridunits[field_property_idx] != detector.flux_unit:
diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 29b5777..33b2a58 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -495,6 +495,8 @@ class Instrument:
         # Set name
         if name is None:
             name = str(self.detector_counter)
+        if name == 'instrument':
+            raise ValueError("The name 'instrument' refers to the instrument's defaults and cannot be used for a detector")
         if name in self.detector_names:
             raise ValueError("Name already in use - this may be because you specified a pre-existing name or because another detector has been given a numerical name that would have been used as a default")
         
@@ -672,7 +674,7 @@ class Instrument:
 
         if field_property_idx is None:
             field_property_idx = 0
-        if field_property_idx > grid.n_dimensions-1 or field_property_idx < 0:
+        if field_property_idx > grid.n_properties-1 or field_property_idx < 0:
             raise ValueError(f"grid does not have property {field_property_idx}")
         if _check:
             _check_grid_detector_compatibility(self,grid,field_property_idx)
@@ -794,7 +796,7 @@ class Instrument:
         side_length = [kernel_size[0]*field.pixel_size[0],kernel_size[1]*field.pixel_size[1],field.side_length[2]]
 
         # Evaluate beam response over kernel axes
-        beam = Grid(n_properties=1,center_point=center,side_length=side_length,pixel_size=field.pixel_size,axunits=field.axunits,gridunits=field.gridunits)
+        beam = Grid(n_properties=1,center_point=center,side_length=side_length,pixel_size=field.pixel_size,axunits=field.axunits)
         beam.init_grid()
 
         shape = beam.grid.shape
@@ -890,7 +892,8 @@ class Instrument:
                     idx = self.detector_names.index(d)
                     all_detector_maps[idx] = detector_map.grid
 
-            all_detector_maps = np.stack(all_detector_maps,axis=2)[:,:,:,0] # Couldn't figure out why stacking was adding another dim, indexing is a hacky fix
+            # The maps contain every property of the field, keep the requested one
+            all_detector_maps = np.stack(all_detector_maps,axis=2)[:,:,:,self.field_props[f]]
 
             # Hijack last 2d grid and turn it into a grid with each map as a property
             detector_map.grid = all_detector_maps
diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index b8b34ad..f58ee4b 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -480,12 +480,15 @@ class Grid():
             The number of properties to include in the new grid
 
         """
+        # Units can only be carried over if they apply to the new properties
+        gridunits = np.copy(self.gridunits) if len(self.gridunits) in [1,n_properties] else None
+
         grid_copy = Grid(n_properties=n_properties,
                           center_point=np.copy(self.center_point),
                           side_length=np.copy(self.side_length),
                           pixel_size=np.copy(self.pixel_size),
                           axunits=np.copy(self.axunits),
-                          gridunits=np.copy(self.gridunits))
+                          gridunits=gridunits)
         
         return grid_copy
 
@@ -504,6 +507,8 @@ class Grid():
         n_properties = len(properties)
 
         grid_copy = self.copy_axes(n_properties)
+        if len(self.gridunits) == self.n_properties:
+            grid_copy.gridunits = np.copy(self.gridunits[properties])
         
         if self.grid_active:
             grid_copy.grid = np.copy(self.grid[...,tuple(properties)])
@@ -587,6 +592,7 @@ class Grid():
 
             self.grid = np.concatenate((self.grid,value),axis=-1)
             self.n_properties += value.shape[-1]
+            self.gridunits = np.concatenate((self.gridunits,[None]*value.shape[-1]))
 
         # Different behavior if grid isn't activated yet
         if not self.grid_active:
@@ -594,6 +600,7 @@ class Grid():
                 raise ValueError("data array for this Grid has not been initialized, cannot add new values in property array -- use add_new_prop(value=None) to add an empty new property without initializing grid")
             else:
                 self.n_properties += 1
+                self.gridunits = np.concatenate((self.gridunits,[None]))
 
 
 
-- 
2.43.0


From 4a486b5d60e1531567ac2930dc8601410e2cb0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:29 +0000
Subject: [PATCH 27/35] fix: a set of light cones holds the numbered cones
 only, and compares shapes

---
 simim/lightcone/lchandler.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 90bde78..e80a488 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -531,8 +531,10 @@ class LCIterator():
 
         # Figure out what lightcones to load
         if numbers is None:
-            files = os.listdir(path)
-            numbers = [int(f.split('_')[1].split('.')[0]) for f in files if fnmatch(f,'lc_*.hdf5')]
+            # Other files (backups etc) may be in the same place
+            numbers = [f[3:-5] for f in os.listdir(path) if fnmatch(f,'lc_*.hdf5')]
+            numbers = [int(n) for n in numbers if n.isdecimal() and n == '{:04d}'.format(int(n))]
+            numbers.sort()
             print("No lightcone numbers specified, initializing all {} light cones in {}/{}".format(len(numbers),sim,name))
         
         # Need these for iteration
@@ -550,10 +552,13 @@ class LCIterator():
 
         # Check for consistency of metadata
         ref_lc = self.lc_handlers[str(self.lc_numbers[0])]
-        for attr in ['cosmo','open_angle','aspect_ratio','minimum_redshift','maximum_redshift']:
+        attrs = ['cosmo','shape','minimum_redshift','maximum_redshift']
+        # Only defined for some shapes
+        attrs += [attr for attr in ['open_angle','aspect_ratio'] if hasattr(ref_lc,attr)]
+        for attr in attrs:
             setattr(self,attr,getattr(ref_lc,attr))
             for i_lc in self.lc_numbers[1:]:
-                if getattr(self.lc_handlers[str(i_lc)],attr) != getattr(self,attr):
+                if getattr(self.lc_handlers[str(i_lc)],attr,None) != getattr(self,attr):
                     if self.require_consistent:
                         raise ValueError("Attribute {} does not match for light cones {} and {}".format(attr, self.lc_numbers[0],i_lc))
                     else:
-- 
2.43.0


From 811096e31f76a94c0eb68cc4af83f4412f7f89ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 28/35] fix: keep abundance matching tables consistent when
 making them is interrupted, and find the first available snapshot

---
 simim/galprops/sfr_bethermin17.py | 14 ++++++++++----
 simim/galprops/sfr_ir.py          | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/simim/galprops/sfr_bethermin17.py b/simim/galprops/sfr_bethermin17.py
index eba84a3..508e870 100644
--- a/simim/galprops/sfr_bethermin17.py
+++ b/simim/galprops/sfr_bethermin17.py
@@ -4,6 +4,7 @@ import numpy as np
 from scipy.interpolate import RegularGridInterpolator
 from scipy.special import erf
 
+from simim._fileio import save_npy
 from simim._paths import _SimIMPaths
 from simim.siminterface._sims import _checksim
 from simim.galprops.log10normal import log10normal
@@ -175,7 +176,7 @@ class bethermin17_base():
         if haloprop not in ['vmax','mass','auto']:
             raise ValueError("haloprop used for abundance matching must be one of 'vmax', 'mass', 'auto'")
         if haloprop == 'auto':
-            snap0 = handler.get_snap(0)
+            snap0 = handler.get_snap(handler.snap_meta['index'][0])
             if snap0.has_property('vmax'):
                 haloprop = 'vmax'
             elif snap0.has_property('mass'):
@@ -220,9 +221,14 @@ class bethermin17_base():
                 smgrid[i] = mstarofhalo(halopropgrid)
         print()
 
-        np.save(os.path.join(self.path,'mass_axis.npy'), halopropgrid)
-        np.save(os.path.join(self.path,'redshift_axis.npy'), zgrid)
-        np.save(os.path.join(self.path,'stellarmass.npy'), smgrid.T)
+        # The axes of a previous set of files don't apply to a new one, so the
+        # file that is checked for when loading goes first and comes back last
+        values_path = os.path.join(self.path,'stellarmass.npy')
+        if os.path.exists(values_path):
+            os.remove(values_path)
+        save_npy(os.path.join(self.path,'mass_axis.npy'), halopropgrid)
+        save_npy(os.path.join(self.path,'redshift_axis.npy'), zgrid)
+        save_npy(values_path, smgrid.T)
 
     def b17_smfpars(self, z, cosmo):
         """Update parameters to a chosen cosmology"""
diff --git a/simim/galprops/sfr_ir.py b/simim/galprops/sfr_ir.py
index 7c9e6e5..f12f8f9 100644
--- a/simim/galprops/sfr_ir.py
+++ b/simim/galprops/sfr_ir.py
@@ -3,6 +3,7 @@ import numpy as np
 
 from scipy.interpolate import RegularGridInterpolator
 
+from simim._fileio import save_npy
 from simim._paths import _SimIMPaths
 from simim.siminterface._sims import _checksim
 from simim.siminterface import SimHandler
@@ -93,7 +94,7 @@ class g13irlf_base():
         if haloprop not in ['vmax','mass','auto']:
             raise ValueError("haloprop used for abundance matching must be one of 'vmax', 'mass', 'auto'")
         if haloprop == 'auto':
-            snap0 = handler.get_snap(0)
+            snap0 = handler.get_snap(handler.snap_meta['index'][0])
             if snap0.has_property('vmax'):
                 haloprop = 'vmax'
             elif snap0.has_property('mass'):
@@ -136,9 +137,14 @@ class g13irlf_base():
                 lirofhalo, _ = am_dfcat(snap_haloprop,df_freeze,missing_pmass_low_p1=missing_pmass_low_p1,missing_pmass_low_p2=missing_pmass_low_p2)
                 irgrid[i] = lirofhalo(halopropgrid)
 
-        np.save(os.path.join(self.path,'mass_axis.npy'), halopropgrid)
-        np.save(os.path.join(self.path,'redshift_axis.npy'), zgrid)
-        np.save(os.path.join(self.path,'lir.npy'), irgrid.T)
+        # The axes of a previous set of files don't apply to a new one, so the
+        # file that is checked for when loading goes first and comes back last
+        values_path = os.path.join(self.path,'lir.npy')
+        if os.path.exists(values_path):
+            os.remove(values_path)
+        save_npy(os.path.join(self.path,'mass_axis.npy'), halopropgrid)
+        save_npy(os.path.join(self.path,'redshift_axis.npy'), zgrid)
+        save_npy(values_path, irgrid.T)
 
     def get_irlf_pars(self, z, alpha0=1.2, sigma0=0.5, lstar0=10**9.95, phistar0=10**-2.25):
         """Use the redshift scaling from Gruppioni et al. 2013 to get IRLF parameters"""
-- 
2.43.0


From fed36e7ce8fa0ccfa2dbea1822e3e1d41eba5f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:35 +0000
Subject: [PATCH 29/35] fix: refuse light cones that no line of sight leaves
 room for instead of searching forever

---
 simim/lightcone/lcmaker.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 7c0bfed..fc6518a 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -503,6 +503,14 @@ class LCMaker(GenericLCMaker):
             be buffered to avoid overflowing the simulation box edges
         """
 
+        # Make sure there is a line of sight passing the tests below - the
+        # diagonal of the box has the most room around it
+        max_distance = np.amax(self.snapshots_use['transverse_distance_max'])
+        buffer_coef = 1.01 * (np.tan(openradius) * np.sqrt(2) + 1 - np.cos(openradius))
+        if (openradius >= np.pi/12 or
+            self.copies_max*self.box_edge*np.sqrt(3) - 2*buffer_coef*max_distance <= 10):
+            raise ValueError("Open angle too large for the simulation box")
+
         test_geom = False
         while not test_geom:
 
-- 
2.43.0


From 1b94c6e9c57e8c0a0d42dc13d0207ddc83217ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:45 +0000
Subject: [PATCH 30/35] fix: keep the locations other sessions record at the
 same time, and let sessions start together

---
 simim/_fileio.py                      | 35 +++++++++++++++++++++++++--
 simim/_paths.py                       | 31 ++++++++++++------------
 simim/siminterface/illustris.py       |  4 +--
 simim/siminterface/uchuu.py           |  4 +--
 simim/siminterface/universemachine.py |  4 +--
 5 files changed, 55 insertions(+), 23 deletions(-)

diff --git a/simim/_fileio.py b/simim/_fileio.py
index 69431e6..ee75672 100644
--- a/simim/_fileio.py
+++ b/simim/_fileio.py
@@ -2,20 +2,43 @@
 import contextlib
 import os
 import shutil
+try:
+    import fcntl
+except ImportError:
+    fcntl = None
 
 import numpy as np
 
+@contextlib.contextmanager
+def locked(path):
+    """Keep other sessions that do the same from changing the files in a
+    directory at the same time (where the system has a way to do so)"""
+
+    file = None
+    try:
+        if fcntl is not None:
+            file = os.open(path,os.O_RDONLY)
+            fcntl.flock(file,fcntl.LOCK_EX)
+    except OSError:
+        pass
+    try:
+        yield
+    finally:
+        if file is not None:
+            os.close(file)
+
 @contextlib.contextmanager
 def atomic_path(path,reuse=True):
     """Give a temporary path to write to, which is moved to path once 
     everything has been written and discarded if anything goes wrong. An
     existing file with the temporary name is replaced, unless reuse is False"""
 
-    tmp_path = '{}.part'.format(path)
+    # Another session may be writing to the same path
+    tmp_path = '{}.part{}'.format(path,os.getpid())
     n = 0
     while not reuse and os.path.lexists(tmp_path):
         n += 1
-        tmp_path = '{}.part{}'.format(path,n)
+        tmp_path = '{}.part{}-{}'.format(path,os.getpid(),n)
     try:
         yield tmp_path
         os.replace(tmp_path,path)
@@ -32,6 +55,14 @@ def save_npy(path,data):
         with open(tmp_path,'wb') as file:
             np.save(file,data)
 
+def make_dir(path):
+    """Make a directory, unless another session has just made it"""
+    try:
+        os.mkdir(path)
+    except FileExistsError:
+        if not os.path.isdir(path):
+            raise
+
 def remove_path(path):
     """Remove a file or a directory and its content, if it exists"""
     if os.path.isdir(path) and not os.path.islink(path):
diff --git a/simim/_paths.py b/simim/_paths.py
index 4ef92d2..e556012 100644
--- a/simim/_paths.py
+++ b/simim/_paths.py
@@ -5,7 +5,7 @@ try:
 except:
     from importlib_resources import files
 
-from simim._fileio import atomic_path
+from simim._fileio import atomic_path, locked, make_dir
 
 def _open_path_file(path,mode='r'):
     """Open a file holding path names, so that any name comes back exactly"""
@@ -35,15 +35,16 @@ def _checkload_path_file(path):
 
 def _add_to_path_file(path,name,new_path):
     """Add a path to a listing file, leaving the file complete at all times"""
-    lines = ''
-    if os.path.exists(path):
-        with _open_path_file(path) as file:
-            lines = file.read()
-        if lines and lines[-1] != '\n':
-            lines += '\n'
-    with atomic_path(path) as tmp_path:
-        with _open_path_file(tmp_path,'w') as file:
-            file.write(lines + '{} {}\n'.format(name,new_path))
+    with locked(os.path.dirname(path)):
+        lines = ''
+        if os.path.exists(path):
+            with _open_path_file(path) as file:
+                lines = file.read()
+            if lines and lines[-1] != '\n':
+                lines += '\n'
+        with atomic_path(path) as tmp_path:
+            with _open_path_file(tmp_path,'w') as file:
+                file.write(lines + '{} {}\n'.format(name,new_path))
 
 class _SimIMPaths():
     """Class to handle the paths to simulations"""
@@ -54,7 +55,7 @@ class _SimIMPaths():
         # Absolute path to simim package
         simim_path = files('simim')
         if not os.path.exists(simim_path.joinpath('resources')):
-            os.mkdir(simim_path.joinpath('resources'))
+            make_dir(simim_path.joinpath('resources'))
         
         # Path to the file where the data directory is listed
         self.root_file = simim_path.joinpath('resources','rootpath.txt')
@@ -126,7 +127,7 @@ class _SimIMPaths():
                       os.path.join(root,self.lc_ext),
                       os.path.join(root,self.prop_ext)]:
             if not os.path.exists(path):
-                os.mkdir(path)
+                make_dir(path)
 
         # Save the root location, now that everything it should contain exists
         with atomic_path(self.root_file) as tmp_path:
@@ -165,7 +166,7 @@ class _SimIMPaths():
         elif new_path == 'auto':
             new_path = os.path.join(self.root,self.sim_ext,sim)
             if not os.path.exists(new_path):
-                os.mkdir(new_path)
+                make_dir(new_path)
 
         new_path = os.path.abspath(new_path)
 
@@ -203,7 +204,7 @@ class _SimIMPaths():
         elif new_path == 'auto':
             new_path = os.path.join(self.root,self.lc_ext,sim)
             if not os.path.exists(new_path):
-                os.mkdir(new_path)
+                make_dir(new_path)
 
         new_path = os.path.abspath(new_path)
 
@@ -241,7 +242,7 @@ class _SimIMPaths():
         elif new_path == 'auto':
             new_path = os.path.join(self.root,self.prop_ext,item)
             if not os.path.exists(new_path):
-                os.mkdir(new_path)
+                make_dir(new_path)
 
         new_path = os.path.abspath(new_path)
 
diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index f1761d9..10bd53f 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -6,7 +6,7 @@ import warnings
 import h5py
 import numpy as np
 
-from simim._fileio import remove_path, save_npy
+from simim._fileio import make_dir, remove_path, save_npy
 from simim.siminterface import _illustris_datahandling as idh
 from simim.siminterface._rawsiminterface import SimCatalogs, Snapshot
 from simim.siminterface._sims import _checksim, _illsims, _tngsims
@@ -378,7 +378,7 @@ class IllustrisCatalogs(SimCatalogs):
         """Download Illustris/TNG subhalo (group) catalogs"""
 
         if not os.path.exists(os.path.join(self.path,'raw')):
-            os.mkdir(os.path.join(self.path,'raw'))
+            make_dir(os.path.join(self.path,'raw'))
 
         # Add a check for already downloaded files
         if redownload:
diff --git a/simim/siminterface/uchuu.py b/simim/siminterface/uchuu.py
index a010bc0..4dde808 100644
--- a/simim/siminterface/uchuu.py
+++ b/simim/siminterface/uchuu.py
@@ -8,7 +8,7 @@ import requests
 import h5py
 import numpy as np
 
-from simim._fileio import atomic_path, save_npy
+from simim._fileio import atomic_path, make_dir, save_npy
 from simim.siminterface._rawsiminterface import SimCatalogs, Snapshot
 
 class UchuuCatalogs(SimCatalogs):
@@ -349,7 +349,7 @@ class UchuuCatalogs(SimCatalogs):
         """
 
         if not os.path.exists(os.path.join(self.path,'raw')):
-            os.mkdir(os.path.join(self.path,'raw'))
+            make_dir(os.path.join(self.path,'raw'))
 
         # Download metadata if not present
         if not os.path.exists(self.meta_path):
diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index 52b061d..e6bcd42 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -12,7 +12,7 @@ except:
 
 import numpy as np
 
-from simim._fileio import atomic_path, save_npy
+from simim._fileio import atomic_path, make_dir, save_npy
 from simim.siminterface._rawsiminterface import SimCatalogs, Snapshot
 from simim.siminterface._sims import _checksim
 
@@ -395,7 +395,7 @@ class UniversemachineCatalogs(SimCatalogs):
         """Download UniverseMachine catalogs"""
 
         if not os.path.exists(os.path.join(self.path,'raw')):
-            os.mkdir(os.path.join(self.path,'raw'))
+            make_dir(os.path.join(self.path,'raw'))
 
         # Download metadata if not present
         if not os.path.exists(self.meta_path):
-- 
2.43.0


From bd67fe502537911aef027ddedd7da8736cda886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:45 +0000
Subject: [PATCH 31/35] fix: make abundance matching tables in one session at a
 time

---
 simim/galprops/sfr_bethermin17.py | 6 ++++--
 simim/galprops/sfr_ir.py          | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/simim/galprops/sfr_bethermin17.py b/simim/galprops/sfr_bethermin17.py
index 508e870..352e463 100644
--- a/simim/galprops/sfr_bethermin17.py
+++ b/simim/galprops/sfr_bethermin17.py
@@ -4,7 +4,7 @@ import numpy as np
 from scipy.interpolate import RegularGridInterpolator
 from scipy.special import erf
 
-from simim._fileio import save_npy
+from simim._fileio import locked, save_npy
 from simim._paths import _SimIMPaths
 from simim.siminterface._sims import _checksim
 from simim.galprops.log10normal import log10normal
@@ -124,7 +124,9 @@ class bethermin17_base():
         self.path = paths.props[self.name]
 
         self.init_stellarmass_function = False
-        self._load_stellarmass_function(comp=sm_comp, remake=sm_remake, haloprop=sm_haloprop, halomassmin=sm_halomassmin)
+        # One session at a time, others can then use what it makes
+        with locked(self.path):
+            self._load_stellarmass_function(comp=sm_comp, remake=sm_remake, haloprop=sm_haloprop, halomassmin=sm_halomassmin)
 
         self.sfr = self.b17_sfr
 
diff --git a/simim/galprops/sfr_ir.py b/simim/galprops/sfr_ir.py
index f12f8f9..c90ec1d 100644
--- a/simim/galprops/sfr_ir.py
+++ b/simim/galprops/sfr_ir.py
@@ -3,7 +3,7 @@ import numpy as np
 
 from scipy.interpolate import RegularGridInterpolator
 
-from simim._fileio import save_npy
+from simim._fileio import locked, save_npy
 from simim._paths import _SimIMPaths
 from simim.siminterface._sims import _checksim
 from simim.siminterface import SimHandler
@@ -60,7 +60,9 @@ class g13irlf_base():
         self.path = paths.props[self.name]
 
         self.init_lir_function = False
-        self._load_lir_function(comp=comp, remake=remake, haloprop=haloprop, halomassmin=halomassmin, lirmin=lirmin)
+        # One session at a time, others can then use what it makes
+        with locked(self.path):
+            self._load_lir_function(comp=comp, remake=remake, haloprop=haloprop, halomassmin=halomassmin, lirmin=lirmin)
 
         # Save pars
         self.lf_alpha0 = lf_alpha0
-- 
2.43.0


From 9c9a4762ca956a291156495402cb3fceacab579e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:45 +0000
Subject: [PATCH 32/35] fix: never replace a grid another session saves
 meanwhile without overwriting

---
 simim/_fileio.py     | 22 +++++++++++++++++++---
 simim/map/gridder.py |  2 +-
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/simim/_fileio.py b/simim/_fileio.py
index ee75672..ab0913b 100644
--- a/simim/_fileio.py
+++ b/simim/_fileio.py
@@ -28,10 +28,11 @@ def locked(path):
             os.close(file)
 
 @contextlib.contextmanager
-def atomic_path(path,reuse=True):
+def atomic_path(path,reuse=True,overwrite=True):
     """Give a temporary path to write to, which is moved to path once 
     everything has been written and discarded if anything goes wrong. An
-    existing file with the temporary name is replaced, unless reuse is False"""
+    existing file with the temporary name is replaced, unless reuse is False,
+    and so is an existing file at path, unless overwrite is False"""
 
     # Another session may be writing to the same path
     tmp_path = '{}.part{}'.format(path,os.getpid())
@@ -41,12 +42,27 @@ def atomic_path(path,reuse=True):
         tmp_path = '{}.part{}-{}'.format(path,os.getpid(),n)
     try:
         yield tmp_path
-        os.replace(tmp_path,path)
+        if overwrite:
+            os.replace(tmp_path,path)
+        else:
+            _move_new(tmp_path,path)
     except BaseException:
         if os.path.exists(tmp_path):
             os.remove(tmp_path)
         raise
 
+def _move_new(tmp_path,path):
+    """Move a file to a path that nothing exists at"""
+    try:
+        os.link(tmp_path,path)
+    except OSError:
+        # Not every file system has links
+        if os.path.lexists(path):
+            raise ValueError("The file you are trying to create already exists")
+        os.replace(tmp_path,path)
+    else:
+        os.remove(tmp_path)
+
 def save_npy(path,data):
     """Save an array (or object) so that path is either complete or not
     changed at all"""
diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index f58ee4b..b15e1be 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -569,7 +569,7 @@ class Grid():
             save_data['grid'] = self.grid
 
         # Put the file in place only once it is complete
-        with atomic_path(path,reuse=False) as tmp_path:
+        with atomic_path(path,reuse=False,overwrite=overwrite) as tmp_path:
             with open(tmp_path,'wb') as file:
                 savefunc(file,**save_data)
 
-- 
2.43.0


From 700eff1fa535fe3c8e29aaf66461466e4982f8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:25 +0000
Subject: [PATCH 33/35] fix: refuse to format snapshots whose metadata is not
 there instead of losing them

---
 simim/siminterface/_rawsiminterface.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index 6197a18..72696fc 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -400,7 +400,15 @@ class SimCatalogs():
         #    2) add things to existing file - only add things not already present
         #    3) add things to existing file - overwrite old things
         pathexists = os.path.exists(os.path.join(self.path,'data.hdf5'))
-        
+
+        # Without metadata a snapshot can't be listed for later use, and the
+        # metadata file may only cover the snapshots it was generated for
+        def check_meta(snaps):
+            known = [] if self.snap_meta is None else self.snap_meta['index']
+            missing = np.setdiff1d(snaps,known)
+            if len(missing) > 0:
+                raise ValueError("No meta data for snapshots {} - run .download_meta(redownload=True) with all the snapshots to be used".format(missing))
+
         pathhassnaps = False
         if pathexists:
             with h5py.File(os.path.join(self.path,'data.hdf5'), "r") as file:
@@ -410,6 +418,7 @@ class SimCatalogs():
         # Case 1 - create new file, save all snapshots in SimHandler to it
         if not pathexists or remake or not pathhassnaps:
             snaps_to_do = self.snaps
+            check_meta(snaps_to_do)
             if basic:
                 self.other_fields = {}
             else:
@@ -447,6 +456,7 @@ class SimCatalogs():
                 snaps_to_do = np.concatenate((add_snaps,replace_snaps))
             else:
                 snaps_to_do = add_snaps
+            check_meta(snaps_to_do)
 
         if len(snaps_to_do) == 0:
             warnings.warn("No new data has been added to file")
-- 
2.43.0


From 494ff0ee0df9010c4b5d7c777b6c33f381b9965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:17 +0000
Subject: [PATCH 34/35] fix: hand out copies of a handler's property lists

---
 simim/_handlers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 8075d50..1ec485c 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -91,13 +91,13 @@ class Handler():
         """
 
         if set == 'any':
-            return self.properties_all
+            return list(self.properties_all)
         elif set == 'loaded':
             return [k for k in self.properties_loaded.keys()]
         elif set == 'saved':
-            return self.properties_saved
+            return list(self.properties_saved)
         elif set == 'generated':
-            return self.properties_generated
+            return list(self.properties_generated)
         else:
             raise ValueError("set not recognized")
 
-- 
2.43.0


From 4e5119700834685fd369e48ca245a47cd74962f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:33 +0000
Subject: [PATCH 35/35] fix: evaluate statistics on the snapshots listed, not
 on those at these positions

---
 simim/siminterface/simhandler.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 8ca0cb4..6c12363 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -668,7 +668,7 @@ class SimHandler():
             If True, values will be fed to stat_function in units including little h.
             If False, little h dependence will be removed.
         snaps : list, optional
-            A list of snapshots on which to evaluate the stat_function. If none is 
+            A list of (index-numbers of) snapshots on which to evaluate the stat_function. If none is 
             specified all snapshots will be used.
             
         Returns
@@ -686,11 +686,10 @@ class SimHandler():
         redshifts = []
 
         if snaps is None:
-            snaps = np.arange(len(self.snap_meta))
-        for i in snaps:
-            snap = self.snap_meta['index'][i]
+            snaps = self.snap_meta['index']
+        for snap in snaps:
             print("\033[1m"+"Collecting sources from Snapshot {}.  ".format(snap)+"\033[0m",end='\r')
-            redshifts.append(self.snap_meta['redshift'][i])
+            redshifts.append(self.extract_snap_meta(snap)['redshift'])
 
             handler = self.get_snap(snap)
             vals.append(handler.eval_stat(stat_function,kwargs,kw_remap,other_kws=other_kws,use_all_inds=use_all_inds,give_args_in_h_units=give_args_in_h_units))
-- 
2.43.0

