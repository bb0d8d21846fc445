"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe),
                          "hook_needed": hook}})

RAW = "simim/siminterface/_rawsiminterface.py"
UM = "simim/siminterface/universemachine.py"
UC = "simim/siminterface/uchuu.py"
IL = "simim/siminterface/illustris.py"
SH = "simim/siminterface/simhandler.py"
HD = "simim/_handlers.py"
LM = "simim/lightcone/lcmaker.py"
LH = "simim/lightcone/lchandler.py"
PA = "simim/_paths.py"
B13 = "simim/galprops/sfr_behroozi13.py"
GR = "simim/map/gridder.py"
IN = "simim/instrument/instrument.py"

prop("P01", "Recorded data locations are exact, last-wins and survive crashes",
     "Every location a user records for a simulation, a set of light cones or a galaxy-model table, and the data directory itself, is returned exactly as given (made absolute) in that and every later session, whatever characters the path contains; the most recent recording for a name wins and no other name's location changes. If a write fails, is interrupted or the process dies while a location is being recorded, every later session still starts and sees, for that entry, either the previous or the new location, and for all other entries the recorded one.",
     ["histories", "crash_points", "fault_sequences", "inputs"],
     "All sequences of set-up and recording calls over several sessions, all path names a file system allows that contain no newline, and every failure or crash point inside the recording writes.",
     "The tests record one location each in one session with paths free of spaces; they never restart, never fail a write, never re-record and never look at torn registry files.",
     [PA], [("append-only name/path listings, last line wins on load", PA + ":_checkload_path_file, _newsimpath, _newlcpath, _newproppath"),
            ("root file read at every start", PA + ":_checkload_root_file, _setuppath")],
     [("rootpath.txt", "the data directory", "simim/resources/"), (".paths/*.txt", "name -> directory listings", "<root>/simim_resources/.paths")],
     ["a fresh import of the package", "the mappings it loads"])

prop("P02", "Nothing is deleted, overwritten or re-pointed without an explicit yes",
     "Whenever the user is asked to confirm deleting raw data, replacing a recorded location or data directory, or reusing an existing light-cone set, an explicit no, unrecognised answers followed by a no, end of input, or an interrupt at the prompt leaves every file and every recorded location exactly as it was, and an explicit yes performs the action. Creating a light-cone maker for a name already in use, with overwriting disallowed, always fails and leaves the existing set byte-for-byte unchanged.",
     ["histories", "fault_sequences", "configurations"],
     "All interactions at every prompt (any number of unrecognised answers, then yes, no, end of input or interrupt), from every reachable on-disk state, over all the confirming operations.",
     "The tests answer one prompt once with yes, or not at all; they never answer no, never feed garbage or end of input, and never compare the directory before and after.",
     [RAW, PA, LM], [("y/n loop before deleting", RAW + ":clean_raw, format"), ("y/n loop before re-pointing", PA), ("name-in-use check", LM + ":GenericLCMaker.__init__")],
     observe=["full directory image and registry before and after"])

prop("P03", "Raw clean-up deletes exactly that simulation's raw files and nothing else",
     "Deleting a simulation's raw data removes all of its raw directory, and clean-as-you-format removes exactly the raw files of the snapshots just formatted; no other file or directory, inside or outside the data directory, is ever removed or changed, whatever characters the data path contains. If a deletion fails part-way the remaining raw files can still be deleted by asking again.",
     ["inputs", "histories", "fault_sequences"],
     "All legal data paths (spaces, quotes, shell metacharacters, leading dashes), all neighbouring directory contents, all subsets of snapshots, and all failures or interrupts during the deletion.",
     "No test calls the clean-up at all, and a wrong target depends on the data path the user picked.",
     [RAW], [("recursive removal of the raw directory / of a snapshot's raw files", RAW + ":clean_raw, format; _get_rawsnapfiles in each catalogue class")],
     observe=["full directory image before and after", "every removal request, including those sent to a shell"])

prop("P04", "Clean-as-you-format never loses a snapshot",
     "While formatting with clean-as-you-go switched on, at every moment and after any error, interrupt, full disk or process death, each requested snapshot that had complete raw files beforehand is still available either as those complete raw files or as a complete and correct entry of the formatted catalogue. Repeating the call once the faults stop, adding to the existing catalogue, completes it.",
     ["crash_points", "fault_sequences", "histories"],
     "Every failure point (each file open, dataset write, attribute write, deletion) and each kill point between file updates, over all subsets, orders and repetitions of formatting calls.",
     "No test formats with deletion switched on; the guarantee is about every point at which the run may stop.",
     [RAW], [("delete after the snapshot's group has been written and the file closed", RAW + ":format")],
     observe=["raw directory and formatted catalogue at every removal and after each stop"])

prop("P05", "Downloads converge to complete, correct files after any transfer faults",
     "A raw file that a later run accepts as already downloaded is byte-for-byte the published file, whatever transfer errors, truncations, server errors, full disks, interrupts or crashes occurred earlier. Once faults stop, one ordinary download call leaves every requested snapshot completely and correctly downloaded, and it leaves files that were already complete untouched without fetching them again unless a re-download was asked for.",
     ["fault_sequences", "histories", "crash_points"],
     "All sequences of download calls over any snapshot subsets and data-file subsets, interleaved with network, disk and process faults at any point of a transfer, for each supported catalogue.",
     "There is no network in the tests: only the built-in test box is ever 'downloaded', once, without any fault.",
     [UM, UC, IL], [("skip files that exist, fetch the rest", UM + ":download; " + UC + ":download; " + IL + ":download")],
     [("raw/", "raw catalogue files", "<sim path>/raw")],
     ["raw directory compared with the simulated server's content", "request log of the simulated server"])

prop("P06", "Catalogue listings and metadata are cached only when whole and always agree",
     "Each snapshot number of a catalogue always refers to the same published file, and the redshift recorded for it is that file's, whatever order the server lists its files in; recorded snapshots are ordered in time and their redshift, time and distance intervals tile the covered range without gaps or overlaps. A server error, an error page, a truncated listing, a failed write, an interrupt or a crash while listings or metadata are fetched and saved never leaves a cached state that makes a later, fault-free session fail or use wrong data.",
     ["fault_sequences", "histories", "crash_points", "schedules"],
     "All listing orders and snapshot subsets, and all sequences of catalogue construction and metadata download with server, disk and process faults at every step.",
     "The tests never fetch a listing or simulate a server, and write metadata once without a failure.",
     [UM, UC, IL, RAW], [("listing cached in web_paths.npy", UM + ":__init__; " + UC + ":__init__"), ("metadata and snapshot metadata saved as two files", "download_meta in each catalogue class"),
                         ("interval computation", RAW + ":Snapshot.dif_lowerz_snap, dif_higherz_snap")],
     observe=["a fresh session's catalogue object", "its cached files"])

prop("P07", "Formatting gives the same faithful catalogue however it is split into runs",
     "After any history of formatting runs (all at once, incremental subsets in any order, overwriting, remaking, basic-only), the formatted catalogue holds exactly the snapshots formatted so far, each containing exactly the raw catalogue's halos with their raw values in the documented units, in order of decreasing mass, together with correct metadata and mass look-up tables. Snapshots a run was not asked to (re)write are left unchanged, an appended run keeps the property set of the existing file, and any redshift in the covered range resolves to the available snapshot whose interval contains it.",
     ["histories", "inputs", "configurations"],
     "All sequences of formatting calls over all snapshot subsets and options, all raw contents (empty snapshots, ties in mass, masses outside the look-up table), over restarts between calls.",
     "The tests format the test box twice with default options and check only that files exist.",
     [RAW, SH], [("create / append / overwrite cases", RAW + ":format"), ("mass sort and mass look-up table", RAW + ":format"), ("redshift bins", SH + ":SimHandler.__init__, z_to_snap")],
     [("data.hdf5", "formatted catalogue", "<sim path>/data.hdf5")],
     ["the file itself and handlers opened on it by fresh sessions"])

prop("P08", "Interrupted formatting never leaves a snapshot that passes for complete",
     "If a formatting run stops at any point because of an error, an interrupt, a full disk, lack of memory or process death, every snapshot that readers or later runs find in the formatted catalogue is complete and correct, and the catalogue can still be opened for those. Repeating the same call once the fault is gone yields the same catalogue as an uninterrupted run.",
     ["crash_points", "fault_sequences", "histories"],
     "Every failure point of every dataset, attribute and file operation during formatting, repeated failures included, from every prior catalogue state.",
     "The tests never interrupt formatting; the partially written states exist only at particular failure points.",
     [RAW, SH], [("snapshot presence decides what is skipped on append", RAW + ":format"), ("snapshot list attribute drives readers", SH + ":SimHandler")],
     observe=["catalogue after every stop, through fresh handlers", "catalogue after the repeated call"])

prop("P09", "First-use model tables are rebuilt or complete, never half-written",
     "The cached interpolation tables of the built-in galaxy model, created on first use in a data directory, are either absent or complete whenever a later session starts: whatever error, full disk, interrupt or crash happened while they were created, the next fault-free session starts and evaluates the model to the same values as an undisturbed installation.",
     ["crash_points", "fault_sequences", "histories"],
     "Every failure or kill point during set-up and table creation, over repeated sessions.",
     "The tests build the tables once, undisturbed, at import.",
     [B13, PA], [("presence of one table file decides whether to build", B13 + ":behroozi13_base.__init__"), ("four table files written in turn", B13 + ":_make_spline_files")],
     observe=["a fresh import and model evaluation after every stop"])

prop("P10", "A handler is a faithful store of properties over any session history",
     "Over any sequence of making, loading, unloading, writing, overwriting, deleting and re-opening, every property a handler returns has exactly the values last given to it (not-a-number where it was evaluated on a restricted selection only), with the right units, and its lists of all, loaded, saved and generated properties agree with what is in memory and on disk. Nothing on disk changes except through a write or a delete, and those change only the named properties.",
     ["histories", "inputs"],
     "All sequences of handler operations on snapshots and light cones, over any number of re-opened sessions, with any property values and data types.",
     "No test exercises the handlers beyond constructing a light-cone maker; the guarantee is over all histories.",
     [HD, "simim/galprops/galprops.py"], [("in-memory and saved property lists", HD + ":Handler"), ("property evaluation with unit handling", "simim/galprops/galprops.py:MultiProp.evaluate_all")],
     observe=["every return value, list and the file content, against a reference model"])

prop("P11", "Saved properties survive other sessions and failed writes",
     "A property stored on disk is replaced only when overwriting was requested, even if another session that was open at the same time stored it. A write or delete that fails or is interrupted at any point leaves the file readable by new sessions with every other property intact and the one concerned either as before, as requested, or absent, and repeating the operation with overwriting allowed succeeds; a property whose write failed stays in the memory of the session that holds it.",
     ["schedules", "fault_sequences", "crash_points"],
     "All interleavings of operations of several simultaneously open sessions on one file, and every failure point inside each write and delete.",
     "No test opens two handlers on one file or fails a write.",
     [HD], [("existence check before writing", HD + ":write_property"), ("dataset then attributes", HD + ":write_property"), ("delete", HD + ":delete_property")],
     observe=["file content after every step through a fresh session"])

prop("P12", "Selections, caching and unit settings never mix up halos or values",
     "After any history of selecting halos by property ranges, loading and unloading, and changing the default unit convention, every property, statistic, or mass-threshold look-up returned equals the one computed directly from the stored values for the halos of the current selection in the requested unit convention, whether or not values are cached in memory. A mass-threshold look-up never leaves out a halo at or above the threshold.",
     ["histories", "inputs", "configurations"],
     "All sequences of selection, caching and unit-setting calls on snapshot and whole-simulation handlers, with any catalogue content.",
     "No test selects, caches or switches units; the guarantee is about every combination reached by histories.",
     [HD, SH], [("active indices", HD + ":set_property_range, return_property"), ("unit default plumbing", HD + ":set_in_h_units; " + SH + ":set_in_h_units, get_snap"), ("mass look-up", SH + ":get_mass_index")],
     observe=["every return value against a reference computed from the raw stored arrays"])

prop("P13", "Whole-simulation property edits reach every snapshot and are repeatable",
     "Making and writing, or deleting, a property for a whole simulation applies it to every snapshot with the values it would have had one by one, never alters or removes the catalogue's own properties, and leaves all other properties alone. If the operation fails or is interrupted part-way, repeating it (with overwriting allowed for writes) completes it on every snapshot.",
     ["histories", "fault_sequences", "crash_points"],
     "All sequences of whole-simulation edits over sessions, with persistent or on-demand snapshot handlers, and every failure point inside them.",
     "No test edits properties over a simulation.",
     [SH, HD], [("loop over snapshots, first snapshot checked", SH + ":SimHandler.make_property, delete_property")],
     observe=["every snapshot's stored properties after each step"])

prop("P14", "Light-cone builds are all-or-nothing and repeatable from their seed",
     "A light cone is marked finished, and can be opened as one, only if it is completely built; a build stopped by an error, interrupt or process death at any point never yields one that reports itself finished. Building again with an equally seeded generator, after any such stop or in any other session, gives light cones with identical content, and different cones of one set and different seeds give different pointings.",
     ["crash_points", "fault_sequences", "histories", "schedules"],
     "Every failure or kill point during a build of any number of cones or spheres, then rebuilds in the same or a new session, with other random draws interleaved.",
     "The tests construct one sphere, without failures and without a seed.",
     [LM, LH], [("status attributes, finished last", LM + ":build_lightcones"), ("generator argument", LM + ":build_lightcones")],
     [("lc_NNNN.hdf5", "one light cone", "<lightcone path>/<name>/")],
     ["status attributes and openability after every stop", "content of rebuilt files"])

prop("P15", "A light cone contains exactly the halos its geometry calls for",
     "For every pointing drawn, a light cone lists exactly once each periodic image of a parent halo that lies inside its field of view, in front of the observer, within its redshift range, in the snapshot responsible for that distance and at or above the minimum mass; nothing else is listed. Each entry's position, angles, redshift, mass and parent reference agree with one another and with the parent halo under one common rotation and reflection, and the redshift index counts the entries below each redshift. A request for a field so wide that no line of sight leaves room for it is refused rather than searched for without end.",
     ["inputs", "configurations", "schedules"],
     "All random pointings, orientations, reflections and start positions, all opening angles, aspect ratios, shapes, redshift and mass limits, box sizes and parent catalogues.",
     "No test builds a light cone; which halos are hit depends on the random draws.",
     [LM], [("segment-wise traversal of the periodic box", LM + ":LCMaker.build_lightcones"), ("mass pre-cut from the look-up table", SH + ":get_mass_index")],
     observe=["the light-cone file against brute-force enumeration of periodic images"])

prop("P16", "A spherical light cone contains every halo of its volume exactly once",
     "For every origin and reflection drawn, a sphere, hemisphere, quarter or eighth contains each parent halo of the requested distance range and mass limit inside that part of the sky exactly once, and nothing else, with position, angles, redshift and parent reference agreeing. A request that does not fit in the simulation box is refused.",
     ["inputs", "configurations", "schedules"],
     "All random origins and reflections, all modes, redshift and mass limits, box sizes and parent catalogues.",
     "One test builds one sphere and checks that it does not raise.",
     [LM], [("recentring in the periodic box", LM + ":SphereMaker.build_lightcones"), ("size check", LM + ":SphereMaker.__init__")],
     observe=["the light-cone file against a brute-force selection"])

prop("P17", "Properties added to light cones come from the right halo, even after retries",
     "After properties are added to a set of light cones, every entry carries the value of its own parent halo, with vector quantities in the same rotated and reflected frame as the positions; entries and properties already present are unchanged. If adding is stopped by an error or interrupt at any point, the set never reports its additions complete while any added property is incomplete, and repeating the call in the same session fills in the same values as an undisturbed call.",
     ["fault_sequences", "histories", "crash_points"],
     "Every failure point while adding any combination of scalar and vector properties to any number of cones or spheres, then any repetition or different addition.",
     "No test adds properties to a light cone.",
     [LM], [("create datasets, then fill snapshot by snapshot", LM + ":add_properties, add_pos_properties"), ("status attributes", LM)],
     observe=["light-cone files after every stop and after repetition, against the parent catalogue"])

prop("P18", "Every random result is a function of the generator the caller passes",
     "When the caller passes a seeded random generator to a galaxy model, scatter function, noise function or light-cone build, the result is fully determined by the arguments and that generator's state, regardless of what other random consumers run before or in between and of any global random state. Such a call neither reads nor advances any other generator, and one set of draws is never reused for what should be independent results.",
     ["schedules", "histories", "configurations"],
     "All interleavings of random consumers, global random states, and model options.",
     "No test passes a seeded generator to the galaxy models or compares two runs.",
     ["simim/galprops/log10normal.py", B13, "simim/galprops/line_fir_yang.py", "simim/galprops/line_fir.py", "simim/galprops/line_co.py", "simim/galprops/line_densegas.py", "simim/galprops/sfr_bethermin17.py", "simim/instrument/noise_functions.py", LM],
     [("rng parameter threaded to the draw", "all galaxy model functions")],
     observe=["values and generator states of interleaved and isolated runs"])

prop("P19", "Evaluating statistics leaves a handler exactly as it was",
     "Evaluating a statistic, an evolution of a statistic over redshift bins or a property, on a light cone or snapshot, gives per-bin results equal to those computed directly from the entries in each bin, and leaves the handler's selection, its counts, its stored properties and the caller's arguments exactly as they were, also when the user's function raises or is interrupted in the middle. A later evaluation is never influenced by an earlier one.",
     ["histories", "fault_sequences"],
     "All sequences of evaluations with any options over several handlers, with the user's callback failing at any of its invocations.",
     "No test evaluates a statistic on a light cone.",
     [LH, HD, SH], [("temporary selection per bin, then restored", LH + ":eval_stat_evo"), ("argument collection", HD + ":eval_stat")],
     observe=["handler state, arguments and results after each call, against a reference"])

prop("P20", "Saved grids reload identically and are never clobbered or half-written",
     "A grid saved to disk reloads as an equal grid (values, axes, units, state) in any later session and takes part in further operations as the original would. An existing file is never replaced unless overwriting is requested, and if saving fails, is interrupted or the process dies, the file name never holds something that loads as a different grid, and with overwriting not involved no earlier file is damaged.",
     ["fault_sequences", "crash_points", "histories", "inputs"],
     "All grids (dimensions, numbers of properties, active or not, Fourier state), file names with and without extension, compression, and every failure point of a save.",
     "No test saves or loads a grid.",
     [GR], [("existence check, then archive writing", GR + ":Grid.save"), ("reload", GR + ":LoadGrid")],
     observe=["reloaded grids and the directory after every stop"])

prop("P21", "An instrument never returns samples from stale or mismatched maps",
     "Whenever an instrument returns signal samples, they equal those of a freshly built instrument with the same current detectors, responses, offsets and fields, read from the property the field was registered with, whatever order detectors and fields were added, changed, mapped and removed in; if its maps are out of date it refuses instead. This also holds after a user-supplied response, noise or beam function raises or is interrupted in any operation.",
     ["histories", "fault_sequences"],
     "All sequences of adding, changing and removing detectors and fields, mapping and sampling, with user callbacks failing at any invocation.",
     "The tests run a few fixed sequences and do not compare with a fresh instrument or fail a callback.",
     [IN], [("per-field consistency flag cleared on change", IN + ":Instrument._set_response, add_detector, del_detectors, add_field, map_fields"), ("grouping of identical detectors", IN + ":_find_spatial_clones, _find_pointing_clones")],
     observe=["returned samples against a freshly built instrument"])

prop("P22", "Operating on a set of light cones equals operating on each one",
     "Opening a set of light cones covers exactly the light cones present (or those asked for), whatever order the directory lists them in, and each operation applied to the set gives for every cone, under its own number, the result of applying it to that cone alone. If the operation fails on one cone, cones not yet reached are untouched and every cone keeps a valid state; sets with different geometry or cosmology are refused when consistency is required.",
     ["schedules", "histories", "fault_sequences"],
     "All directory listing orders, subsets of numbers, sequences of set operations, and failures on any cone.",
     "No test opens a set of light cones.",
     [LH], [("numbers from the directory listing", LH + ":LCIterator.__init__"), ("generated wrappers looping over handlers", LH + ":LCIterator.__init__")],
     observe=["results and files per cone against single-cone handlers"])

prop("P23", "Cached tables of abundance-matched models are those of one complete run",
     "The cached tables of the abundance-matched models of stellar mass and infrared luminosity are, whenever a later session uses them, absent or those of one complete matching run over the simulation's formatted snapshots with one set of settings, whatever error, full disk, interrupt or crash happened while they were made or remade. Once faults stop, asking for them gives the same values as an undisturbed run, and existing tables change only when remaking was asked for.",
     ["fault_sequences", "histories", "crash_points"],
     "All histories of making, remaking with other settings and loading, over any formatted snapshots, and faults at any point.",
     "No test uses these models; a table that mixes two runs shows only after a stop between two file writes.",
     ["simim/galprops/sfr_bethermin17.py", "simim/galprops/sfr_ir.py"],
     [("three files written after the matching", "simim/galprops/sfr_bethermin17.py:bethermin17_base._make_stellarmass_function"),
      ("three files written after the matching", "simim/galprops/sfr_ir.py:g13irlf_base._make_lir_function")],
     observe=["values of the model in later sessions"])

prop("P24", "Sessions running at the same time do not disturb each other",
     "Whatever sessions run at the same time in one data directory (starting for the first time, recording locations, making model tables, building different sets of light cones, downloading different snapshots, saving grids) and however their steps interleave, each one that is not stopped by a fault of its own succeeds with the results it would have had alone, and afterwards every location recorded by any of them is there, every file made is complete and that of one of them, and a grid saved without overwriting never replaces one another session has saved. A session that is killed leaves nothing that stops or changes the others, and can be repeated.",
     ["schedules", "fault_sequences", "crash_points"],
     "All interleavings of the file-system calls of any number of sessions, with faults in any of them.",
     "Tests run one session in one process; lost updates and colliding temporary files need two sessions between two particular calls.",
     ["simim/_paths.py", "simim/_fileio.py", "simim/galprops/sfr_behroozi13.py", "simim/galprops/sfr_bethermin17.py", "simim/galprops/sfr_ir.py", GR],
     [("read, change and replace the recorded locations", "simim/_paths.py:_add_to_path_file"),
      ("complete files only", "simim/_fileio.py:atomic_path"),
      ("saving without overwriting", GR + ":Grid.save")],
     observe=["recorded locations in later sessions", "values of model tables", "content of light cones, raw files and grids"])

# --- pure-function properties: listed, not claimed (see MANIFEST not_applicable)
prop("N01", "Gridding puts each object in the cell that contains it and conserves totals",
     "Each object inside the grid's limits contributes its value to exactly the cell containing its position and objects outside contribute nothing, so the grid total equals the sum over contained objects.",
     ["inputs"], "All positions, values, grid shapes and limits.", "Tests sample a few catalogues.",
     [GR], [("histogramming", GR + ":Grid.add_from_cat")])
prop("N02", "Fourier transforms round-trip and power spectra are normalised",
     "Transforming a grid to Fourier space and back returns the original grid, and power spectra satisfy Parseval's relation for the box volume.",
     ["inputs"], "All grids and axes.", "No test covers Fourier operations.", [GR], [("transforms", GR + ":Grid.fourier_transform, power_spectrum")])
prop("N03", "Cropping, padding, collapsing and convolving keep values aligned with axes",
     "After any crop, pad, collapse or convolution every retained cell has the value and axis coordinates it should have from the original grid.",
     ["inputs"], "All grids and arguments.", "Tests sample small grids.", [GR], [("axis bookkeeping", GR + ":Grid.crop, pad, collapse_dimension, convolve")])
prop("N04", "Spectral gridding deposits each source's spectrum in the right cells",
     "Each source's spectrum is evaluated on the grid's spectral axis and added at its position, so that totals equal the sum over sources.",
     ["inputs"], "All sources, spectra and grids.", "Tests sample a few sources.", ["simim/map/gridder.py"], [("spectral gridder", GR)])
prop("N05", "Deterministic galaxy relations are elementwise and follow their published fits",
     "Without scatter, every galaxy relation maps each object's inputs to the published relation's value independently of the other objects.",
     ["inputs"], "All redshifts, masses, star-formation rates and options.", "No test evaluates the relations.", ["simim/galprops/line_co.py", "simim/galprops/line_fir.py"], [("closed formulae", "simim/galprops")])
prop("N06", "Abundance matching preserves rank order and cumulative number density",
     "Matching assigns to each mass the value at equal cumulative number density, monotonically.",
     ["inputs"], "All mass functions and target functions.", "No test covers matching.", ["simim/galprops/galprops_am.py"], [("cumulative matching", "simim/galprops/galprops_am.py")])
prop("N07", "Spatial and spectral response functions have the documented shape and norm",
     "Built-in beams and spectral responses peak at their centre, have the requested width and the documented normalisation.",
     ["inputs"], "All parameters and axes.", "Tests sample one parameter set.", ["simim/instrument/spatial_response.py", "simim/instrument/spectral_response.py"], [("closed formulae", "simim/instrument")])
prop("N08", "The comoving volume of a light cone is that of its geometry",
     "The volume reported for a light cone or a part of it equals the comoving volume between the redshifts times the solid angle, and volumes of disjoint redshift ranges add up.",
     ["inputs"], "All geometries and redshift ranges.", "No test computes a volume.", [LH], [("closed formula", LH + ":LCHandler.volume")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
