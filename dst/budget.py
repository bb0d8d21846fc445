"""Runs per tier and the level and rule reported for each property."""
BUDGET = {}
LEVEL_RULE = {}
STUBS = {'real': ['the whole simim package of the working tree (imported afresh in every simulated session)',
                  'h5py/HDF5, numpy, scipy, astropy, requests and urllib above the transport',
                  'the kernel file system, inside a scratch directory'],
         'simulated': ['user at the prompt', 'shell commands', 'HTTP transport and servers', 'wget', 'clock',
                       'directory listing order', 'entropy of unseeded generators', 'process death and restart'],
         'replaced data': ['the published galaxy-model table is thinned out (same format, same code reads it)']}


def add(pid, quick, thorough, level, rule):
    BUDGET[pid] = (quick, thorough)
    LEVEL_RULE[pid] = (level, rule)


R = 'one seed = one plan (operations, arguments, faults, listing orders, entropy) executed in a fresh simulated machine; '
add('P01', 1200, 60000, 'exploration', R + 'non-trivial = at least one recording executed and compared over a restart')

NOTES = {}


def note(pid, over, text):
    NOTES[pid] = (over, text)


TRUST = (' Sampled, not exhaustive. Trusts the seams of dst/core.py, the oracle in the property module, and that process'
         ' death leaves what was handed to the operating system (no power-loss model).')
note('P01', 'recording histories, path names and crash points',
     'Every recording, root switch and restart is compared with a small model that allows old or new only for the entry a fault hit.' + TRUST)
add('P07', 600, 20000, 'exploration', R + 'non-trivial = at least one formatting call compared with the raw data')
note('P07', 'formatting histories and raw contents', 'The formatted file is compared value by value with the raw catalogue after every call.' + TRUST)
add('P08', 400, 20000, 'fault_enumeration', R + 'non-trivial = a formatting call was stopped by a fault at some point, inspected and repeated')
note('P08', 'formatting histories and fault points', 'After every stop each snapshot found is compared with the raw catalogue; the same call is then repeated.' + TRUST)
add('P05', 450, 30000, 'fault_enumeration', R + 'non-trivial = a transfer was hit by a fault (or completed) and the files compared with the published ones')
note('P05', 'download histories, transfer faults and crash points', 'Publishers are simulated; wget is a stand-in with its documented -nc, -P and partial-file behaviour; Illustris files are real HDF5.' + TRUST)
add('P06', 500, 30000, 'fault_enumeration', R + 'non-trivial = a listing or metadata fetch was hit by a fault (or completed) and later sessions compared with the published truth')
note('P06', 'listing and metadata histories, server faults and crash points', 'The metadata table is recomputed independently; the file a snapshot number stands for is observed from what is downloaded.' + TRUST)
add('P02', 250, 30000, 'exploration', R + 'non-trivial = a prompt was answered (or not) and the whole tree and every recorded location compared')
note('P02', 'sequences of prompted operations, answers (garbage, no, end of input, interrupt, yes) and faults before the answer', 'After a declined prompt the whole scratch tree and the recorded locations are compared byte for byte.' + TRUST)
add('P03', 600, 30000, 'fault_enumeration', R + 'non-trivial = a deletion ran (or was hit by a fault) and the whole tree was compared')
note('P03', 'deletion and formatting histories, path names and fault points', 'Whole-tree comparison with decoys at every place a mangled path would name; destructive calls are contained in the scratch area and escapes recorded.' + TRUST)
add('P04', 400, 30000, 'fault_enumeration', R + 'non-trivial = a clean-as-you-go formatting call ran (or was hit by a fault) and availability of every requested snapshot was evaluated')
note('P04', 'clean-as-you-go formatting histories and fault points', 'Availability is evaluated at the instant of the first deletion of each snapshot and after every stop.' + TRUST)
add('P09', 600, 40000, 'fault_enumeration', R + 'non-trivial = a session start that builds the tables was hit by a fault (or completed) and the model evaluated afterwards')
note('P09', 'first-use histories, table locations and fault points', 'The next fault-free session must start and give the values of an undisturbed installation in the same run. The published table is thinned out (see DESIGN.md).' + TRUST)
add('P10', 400, 60000, 'exploration', R + 'non-trivial = at least one property operation compared with the model in memory and on disk')
note('P10', 'handler histories, values, unit conventions and failing reads or user functions', 'After every operation the lists, the values in every unit convention and the whole file are compared with a model of memory and disk.' + TRUST)
add('P11', 350, 60000, 'fault_enumeration', R + 'non-trivial = a write or delete was hit by a fault (or completed) and the file examined as a new session finds it')
note('P11', 'interleavings of two sessions writing and deleting on one file, and fault points inside HDF5 operations', 'The file is compared with the model after every call; process death is not injected while an HDF5 file is open for writing.' + TRUST)
add('P12', 400, 60000, 'exploration', R + 'non-trivial = at least one selection, load, unit change, statistic or look-up compared with direct computation')
note('P12', 'histories of selections, loads, unit changes, statistics and look-ups, and failing reads or user functions', 'Everything returned is recomputed from the stored values.' + TRUST)
add('P13', 220, 60000, 'fault_enumeration', R + 'non-trivial = a whole-simulation edit was hit by a fault (or completed) and every snapshot compared')
note('P13', 'histories of whole-simulation edits, single-snapshot edits and sessions, and fault points', 'Every snapshot is compared with the values computed one by one; stopped edits are repeated.' + TRUST)
add('P15', 250, 40000, 'exploration', R + 'non-trivial = at least one light cone compared with brute-force enumeration of periodic images')
note('P15', 'geometries, mass limits, pointings and halo positions planted at the edges of the drawn pointings', 'The oracle enumerates periodic images around the line of sight and allows either answer within 2e-6 rad and 1e-5 of a limit. No concurrency or faults are involved beyond the seeded generator; build faults are P14.' + TRUST)
add('P16', 500, 60000, 'exploration', R + 'non-trivial = at least one sphere compared with a brute-force selection, or a request that does not fit attempted')
note('P16', 'origins, reflections, modes, mass limits, ranges and halo positions planted at the edges of the drawn spheres', 'Brute-force selection in the recentred box, either answer allowed within 1e-5 of a limit. No concurrency or faults are involved beyond the seeded generator; build faults are P14.' + TRUST)
add('P14', 110, 40000, 'fault_enumeration', R + 'non-trivial = a build was stopped by a fault (or completed) and every file of the set compared with an undisturbed build from the same seed')
note('P14', 'build histories, seeds, generators, other random consumers and fault points', 'Whatever opens or reports itself finished must equal the undisturbed build of the same seed; stopped builds are repeated. Process death is not injected while an HDF5 file is open for writing.' + TRUST)
add('P17', 250, 40000, 'fault_enumeration', R + 'non-trivial = an addition was hit by a fault (or completed) and every entry of every cone compared with its parent halo')
note('P17', 'histories of additions to cones and spheres, user-made properties, repetitions and fault points', 'Every entry is compared with its parent in the catalogue (vectors in the frame of the positions); what was there before is compared byte for byte. Process death is not injected while an HDF5 file is open for writing.' + TRUST)
add('P18', 500, 60000, 'exploration', R + 'non-trivial = at least one random result compared with the same call alone')
note('P18', 'interleavings of random consumers, generators, model options and sessions', 'Every result is recomputed alone, in another session and order, from the same generator state; all other generators (global, default, other callers) are compared before and after.' + TRUST)
add('P19', 300, 60000, 'fault_enumeration', R + 'non-trivial = at least one evaluation was stopped (or completed) and compared with direct computation')
note('P19', 'histories of evaluations with failing, interrupted and argument-changing user functions over several handlers', 'Results per bin are recomputed from the stored values; after every evaluation the state of all handlers, their files and the arguments of the caller are compared.' + TRUST)
add('P20', 1500, 80000, 'fault_enumeration', R + 'non-trivial = a save was hit by a fault (or completed) and the file loaded again')
note('P20', 'grids of all kinds, histories of changes, saves, loads and sessions, file names and fault points inside the write', 'Files are loaded again after every save, and further operations are applied to the reloaded grid and to a twin of the original.' + TRUST)
add('P21', 3500, 80000, 'sampling', R + 'non-trivial = signal samples were returned and compared with the definition')
note('P21', 'detectors, responses, offsets, fields with one or more properties, histories and failing callbacks', 'The expected samples are computed from the documented definitions, without the code under test.' + TRUST)
add('P22', 450, 60000, 'fault_enumeration', R + 'non-trivial = a set was opened and an operation on it (perhaps stopped on a cone) compared with single light cones')
note('P22', 'sets, listing orders, stray files, histories of set and single-cone operations and failures on any cone', 'A twin of every cone gets the same operations one cone at a time.' + TRUST)
add('P23', 260, 60000, 'fault_enumeration', R + 'non-trivial = a matching run was stopped by a fault (or completed) and the tables used by a later session')
note('P23', 'making, remaking and loading histories, settings and fault points', 'The values of every later session are compared with undisturbed runs of each setting asked for.' + TRUST)
add('P24', 500, 60000, 'exploration', R + 'non-trivial = at least two simulated processes ran interleaved and the result was compared with running them one after another')
note('P24', 'groups of tasks, interleavings at file-system calls, faults in some of the processes', 'Processes share the scratch file system only; the schedule hands one baton from thread to thread at seam points, except between HDF5 calls.' + TRUST)
