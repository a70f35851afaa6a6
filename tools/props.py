import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b) for a,b in (state or [])],observe_at=observe or [],hook_needed=None)))

p("C01","Parallel LST-stack reading equals one-at-a-time reading under any schedule",
"Reading many nights of visibility files into an LST stack returns, for every LST bin, the same data, flags, sample counts, inpainting masks, times and LSTs however many reader threads are used and in whatever order the reads start, interleave and finish. Every integration comes from its own file, calibrated with that file's own gains and flagged by that file's gain flags, and a baseline a file lacks, or a polarization it lacks while holding another requested one, appears as flagged NaN with zero samples and disturbs no other file's rows. Repeating the call in the same process, with other bins or baselines and the same argument objects, gives what a fresh process would give.",
["schedules","inputs","histories"],
"For every set of input files, every worker count, and every interleaving of the reader threads at line granularity, including repeated calls in one process.",
"The tests compare serial and threaded reads once, on equal-sized files with the natural schedule; a race or an order dependence needs a completion order, a file shape or a call history that those runs do not produce.",
["hera_cal/lst_stack/binning.py","hera_cal/apply_cal.py","hera_cal/datacontainer.py","hera_cal/lst_stack/calibration.py"],
[("per-file row slices computed before dispatch","lst_stack/binning.py:lst_bin_files_for_baselines"),("per-task copies of mutable arguments","lst_stack/binning.py:file_args"),("reader without shared state","lst_stack/binning.py:_read_one_file")],
[("master arrays","data, flags and sample counts of all files, filled by row slice as reads complete")],
["return value of the stack reader"])

p("C02","A failed read in a parallel LST stack is raised, never absorbed",
"If opening or reading any visibility, calibration or inpainting file of an LST stack fails, the call raises an error instead of returning a stack in which the failed file is missing, flagged, partly filled or left uncalibrated. Once the fault is gone, the same call in the same process returns the complete stack, and no reader thread of the failed call is left running.",
["fault_sequences","schedules"],
"For every I/O operation of every reader at which a fault can strike, every worker count and every interleaving of the other readers with the failing one.",
"No test injects an I/O error into a reader thread; whether the error surfaces depends on which operation fails and on when the other readers finish.",
["hera_cal/lst_stack/binning.py","hera_cal/io.py"],
[("the result of every read is demanded","lst_stack/binning.py: as_completed loop with fut.result()"),("pool is joined before the call returns","lst_stack/binning.py: executor context")],
None,["exceptions and return values of the stack reader","live threads after the call"])

p("C03","Shared filter cache: readers see complete entries only",
"A filter cache directory shared by concurrently running filtering jobs can be read at any moment: a reader obtains exactly the union of entries that complete cache writes have published (each equal to what its writer stored), never an error or a wrong entry because another job is writing, or because a job was killed or hit a disk error part way through its write. Writing new entries never removes or alters entries already published.",
["schedules","crash_points","fault_sequences"],
"For every interleaving of reader and writer jobs at system-call granularity and every crash point and disk fault in a writer.",
"The tests write one cache and read it back in one process; they never read while a write is in progress or after a write was cut short.",
["hera_cal/io.py","hera_cal/delay_filter.py","hera_cal/vis_clean.py"],
[("only entries new since the last read are written, to a fresh file","io.py:write_filter_cache_scratch"),("every cache file in the directory is merged","io.py:read_filter_cache_scratch")],
[("*.filter_cache files","published cache entries")],["dictionary returned by the cache reader"])

p("C04","Existing files survive when overwriting was not asked for",
"Any function that writes a product under a no-overwrite setting leaves a file that already exists at its output path byte-for-byte unchanged, and refuses (or says it skips) rather than writing, whether the existing file is an earlier product, an unrelated file or the wreck of a crashed earlier attempt. With overwriting asked for, the output afterwards holds the new product only, with nothing of the old file left in it.",
["histories","configurations","crash_points"],
"For every writing entry point, every output format and keyword combination that selects a write path (whole or chunked), and every content of the pre-existing file including partial files from crashes.",
"Tests check a few writers for a raised error, with the simplest argument combination, and mostly do not look at the bytes on disk afterwards.",
["hera_cal/io.py","hera_cal/utils.py","hera_cal/apply_cal.py","hera_cal/lst_stack/io.py","hera_cal/lst_stack/wrappers.py","hera_cal/vis_clean.py","hera_cal/redcal.py","hera_cal/abscal.py","hera_cal/smooth_cal.py","hera_cal/frf.py","hera_cal/chunker.py","hera_cal/autos.py","hera_cal/noise.py","hera_cal/reflections.py"],
[("exists-and-not-clobber guards before writing","io.py, utils.py, abscal.py, lst_stack/io.py"),("clobber passed to the pyuvdata writers","all writers")],
None,["bytes of the output path before and after the call"])

p("C05","Input files are never modified",
"No pipeline stage changes, truncates, renames or removes any of its input files (visibilities, calibration solutions, flags, models, configuration), whether it succeeds, raises, is killed at any point, or is run concurrently with other stages on the same inputs. A stage writes only to the outputs its caller named.",
["crash_points","fault_sequences","configurations"],
"For every file-to-file stage, every configuration, and every fault or crash at any system call of the stage.",
"Tests never compare input bytes after a run, and never after an interrupted run.",
["hera_cal/io.py","hera_cal/apply_cal.py","hera_cal/vis_clean.py","hera_cal/frf.py","hera_cal/delay_filter.py","hera_cal/redcal.py","hera_cal/abscal.py","hera_cal/smooth_cal.py","hera_cal/chunker.py","hera_cal/utils.py","hera_cal/lst_stack/wrappers.py"],
[("inputs opened read-only; separate output objects","io.py:HERAData.read, HERACal.read"),("partial writers keyed by output path","io.py:HERAData.partial_write")],
None,["system calls that open files for writing; bytes of inputs"])

p("C06","Any history of partial reads returns exactly what the file holds",
"Reading a visibility or calibration file in parts, by any selection of baselines, antennas, times, time or LST ranges, channels, frequencies or polarizations, from one file or several, returns exactly the corresponding part of the file with matching metadata, irrespective of the partial reads, updates or failed reads that went before on the same object. The fast reader and the full reader agree. Iterating over a file in chunks of channels or integrations yields every element exactly once and nothing else; iterating in chunks of baselines (or redundant groups) yields every requested baseline and polarization, where a chunk may also hold the other polarizations of its antenna pairs.",
["histories","inputs","fault_sequences"],
"For every file layout (baseline-major or time-major, one or several files), every selection, and every sequence of reads, iterations and I/O failures on one reader object.",
"Tests perform one or two reads per object on a few fixed files; selection, layout, conjugation and leftover state from an earlier (possibly failed) read interact combinatorially.",
["hera_cal/io.py","hera_cal/datacontainer.py"],
[("partial read with metadata rebuild","io.py:HERAData.read, HERACal.read, HERADataFastReader"),("chunk iterators","io.py:iterate_over_bls, iterate_over_freqs, iterate_over_times"),("multi-file partial time I/O","io.py:partial_time_io")],
[("reader object","cached file metadata and currently loaded data")],["returned containers and their metadata"])

p("C07","Chunked update-and-write equals whole-file update",
"Writing a visibility file piece by piece, in chunks of any size by baseline or by time and in any order, produces a file with the same data, flags, sample counts and metadata as making the same updates to the whole file at once. Elements that are not updated keep the values that were read, and updating one part of an object never changes another part, whatever conjugation or key order the updates use.",
["histories","inputs","crash_points"],
"For every chunking, order and subset of pieces, every file layout, several outputs written in turn by the same object, and restarts from scratch after a crash between or within pieces.",
"Tests write one or two chunk sizes in natural order to one output file.",
["hera_cal/io.py","hera_cal/apply_cal.py"],
[("output initialised on first piece, later pieces written in place","io.py:HERAData.partial_write"),("update of loaded arrays by baseline and slice","io.py:HERAData.update, HERACal.update")],
[("writers","which output files have been initialised by this object")],["bytes/arrays of the output file"])

p("C08","Work divided among jobs covers everything exactly once",
"When files, baselines or integrations are divided among independent jobs, every element is assigned to exactly one job and each job, given the same list, computes the same division regardless of the process it runs in, the order in which jobs run, the order of baselines inside each file, Python's hash randomisation, or earlier divisions made from the same objects. Splitting a set of files into chunks, listed in any order, and selecting spectral windows from them, keeps every integration, in order, with its values unchanged.",
["schedules","configurations","inputs"],
"For every number of files, chunk size, job order, directory-listing order and hash seed, including file counts that do not divide evenly, files that hold the same baselines in different orders, and jobs killed and rerun.",
"Tests run every job in one interpreter with one hash seed over one file list, so jobs cannot disagree.",
["hera_cal/io.py","hera_cal/chunker.py","hera_cal/utils.py"],
[("position of a file in the list selects its share of baselines","io.py:baselines_from_filelist_position"),("position selects files of a chunk","chunker.py:chunk_files"),("baseline chunks by redundant group","utils.py:chunk_baselines_by_redundant_groups")],
None,["shares computed by each simulated job; union of all output files"])

p("C09","Turning baseline-chunk files into time-chunk files loses nothing",
"After the baseline-chunk outputs of all jobs are regrouped into time-chunk files, every baseline, polarization and integration of the inputs appears in exactly one output with its data, flags and sample counts unchanged, for either way of choosing the time range. This holds whatever the order in which chunk files are listed and jobs run, and after any crash-and-rerun of individual regrouping jobs.",
["schedules","inputs","crash_points"],
"For every division of baselines over chunk files and times over templates, every listing and job order, and every crash point in a regrouping job that is then rerun.",
"One test regroups a fixed pair of files in natural order.",
["hera_cal/vis_clean.py","hera_cal/io.py"],
[("time range from template, concatenation over baseline chunks","vis_clean.py:time_chunk_from_baseline_chunks")],
None,["time-chunk files"])

p("C10","Applying calibration file-to-file equals the calibration equation",
"Applying calibration to a visibility file writes, for every baseline, time and channel, the visibility divided (or multiplied, per the stated gain convention) by the first antenna's gain times the conjugate of the second's (and the reverse for the old calibration), flagged wherever the data, either gain, or any extra flag source is flagged or a needed gain is missing, with the requested sample-count and frequency changes. The output does not depend on how many baselines are loaded at a time, on the order of baselines in the file, or on a crash and rerun.",
["inputs","configurations","crash_points"],
"For every input layout, set of gains and flags, gain convention, old and new calibration, chunk size, and crash point followed by a rerun.",
"Tests exercise a handful of files with mostly unit or smooth gains and two chunk sizes, never with a rerun over a partial output.",
["hera_cal/apply_cal.py","hera_cal/io.py"],
[("in-place calibration","apply_cal.py:calibrate_in_place"),("whole-file and chunked paths","apply_cal.py:apply_cal"),("partial write","io.py:HERAData.partial_write")],
None,["output visibility file"])

p("C11","Rerunning an interrupted job gives the uninterrupted result",
"If any file-to-file job is killed at an arbitrary point, or fails with an I/O error, and is then run again with overwriting enabled, its outputs hold the same data, flags, sample counts, gains and metadata as if it had never been interrupted. Leftover partial outputs, caches or temporary files of the dead job neither make the rerun fail nor leak into its results, in the same or in a new process.",
["crash_points","fault_sequences","histories"],
"For every job kind (calibration application, delay and fringe-rate filtering, time averaging, chunking, regrouping, redundant and absolute calibration, smoothing, autocorrelation and noise extraction, LST binning, configuration writing), every system call at which the job dies or fails, torn or lost writes included, and any number of successive interruptions.",
"No test interrupts a job; every test starts from an empty output directory.",
["hera_cal/io.py","hera_cal/apply_cal.py","hera_cal/delay_filter.py","hera_cal/frf.py","hera_cal/vis_clean.py","hera_cal/redcal.py","hera_cal/abscal.py","hera_cal/smooth_cal.py","hera_cal/chunker.py","hera_cal/autos.py","hera_cal/noise.py","hera_cal/utils.py","hera_cal/lst_stack/wrappers.py","hera_cal/lst_stack/config.py"],
[("outputs recreated from scratch when overwriting","all writers"),("no state outside the named outputs and the cache directory","all stages")],
None,["output files after the final successful run"])

p("C12","I/O errors never turn into a wrong result reported as success",
"If a read or write fails (I/O error, full disk, unreadable or truncated file) while a job runs and the storage library reports it, the job ends with an error unless its outputs and returned values are exactly those of a fault-free run. A job that returns normally has left complete, readable outputs.",
["fault_sequences","configurations"],
"For every job kind and every system call at which an error, a short transfer or a full disk can strike.",
"No test injects disk errors.",
["hera_cal/io.py","hera_cal/apply_cal.py","hera_cal/delay_filter.py","hera_cal/frf.py","hera_cal/vis_clean.py","hera_cal/redcal.py","hera_cal/abscal.py","hera_cal/smooth_cal.py","hera_cal/chunker.py","hera_cal/utils.py","hera_cal/lst_stack/wrappers.py"],
[("errors propagate; no handler swallows them","all stages")],
None,["exit status of the job and contents of its outputs"])

p("C13","LST-binned files hold the right average of every matching integration",
"Each LST-binned output holds, for every baseline, polarization and channel, the sample-weighted mean over all unflagged (or, in inpainted mode, usable) integrations of all nights whose LST falls in that bin, with the matching standard deviation, summed sample counts, night counts and flags; each integration of the matched files contributes to exactly one bin. The outputs do not depend on the baseline chunk size, on the order in which nights, files or output files are processed, on which job computes which output file, or on crashes and reruns of single jobs.",
["inputs","schedules","crash_points"],
"For every set of nights, files, LST grid (including wrap-around), baseline chunking, job order and crash point followed by a rerun.",
"Tests check values only for constant or synthetic skies in one process and natural order; bin membership, partial files and chunk boundaries vary with every observing season.",
["hera_cal/lst_stack/wrappers.py","hera_cal/lst_stack/binning.py","hera_cal/lst_stack/averaging.py","hera_cal/lst_stack/config.py","hera_cal/lst_stack/io.py"],
[("matching of files to LST bins","lst_stack/config.py"),("binning and averaging","lst_stack/binning.py, lst_stack/averaging.py"),("chunked writing","lst_stack/wrappers.py")],
None,["LST, STD, MED and MAD output files"])

p("C14","An LST-binning plan read by any job is the plan that was written",
"The LST-binning plan saved to disk is read back by every job, in any process, as exactly the plan that was written: same grid, nights, matched files and time indices, baselines, calibration and inpainting files and properties. In the plan every integration of every input file that lies within the grid is listed under exactly one output file, independent of the order in which nights and files are listed.",
["configurations","inputs","schedules"],
"For every collection of nights and files, LST grid, branch cut, blacklists and calibration or inpainting rules, every listing order and hash seed.",
"Tests round-trip a few fixed plans.",
["hera_cal/lst_stack/config.py","hera_cal/utils.py"],
[("configurator matches nights to grid","lst_stack/config.py:LSTBinConfigurator"),("HDF5 plan file","lst_stack/config.py:LSTConfig.write / from_file")],
None,["plan objects before writing and after reading"])

p("C15","What one job writes, the next job reads back unchanged",
"Calibration solutions, visibilities, redundant-calibration metadata, decoherence measurements, LST calibration solutions and combined or multiplied gain files are read back by the next job with the values, flags, qualities, times, frequencies, antennas and polarizations that were written (and, for visibilities, the given units and integration time). Combining or concatenating several such files gives the same content for any order of the inputs, pairs antennas and polarizations by name whatever their order in each file, and drops nothing.",
["inputs","histories","schedules"],
"For every content of the product (flags, non-finite values, antenna subsets, one or several polarizations and integrations) and every order in which files are combined, between processes with different hash seeds.",
"Tests round-trip a few fixed arrays in one process.",
["hera_cal/io.py","hera_cal/utils.py","hera_cal/abscal.py","hera_cal/lst_stack/calibration.py"],
[("writers and readers of each product","io.py:HERACal, write_cal, update_cal, save_redcal_meta, SNAPDecoherence; utils.py:combine_calfits; abscal.py:multiply_gains; lst_stack/calibration.py")],
None,["values read by a second process"])

p("C16","Filtering and averaging jobs do not depend on how the work is chunked",
"Delay filtering, fringe-rate filtering, time averaging and redundant averaging run from files produce the same filtered data, flags and sample counts whether all baselines are loaded together or a few at a time, whether a shared filter cache is absent, cold, warm or written by another job, and in whatever order the jobs run. Every input baseline not explicitly excluded appears in the output. Time averages and redundant averages equal their definitions (weighted means, summed sample counts, flagged only where every contribution is flagged or has no weight, at the mean time and LST of what was averaged) in every polarization and for either orientation of a baseline.",
["configurations","histories","schedules"],
"For every chunk size, cache state and job order, and every flag pattern.",
"Tests run one or two chunk sizes with a cold cache and mostly check shapes or flags.",
["hera_cal/delay_filter.py","hera_cal/frf.py","hera_cal/vis_clean.py","hera_cal/io.py","hera_cal/utils.py"],
[("loop over baseline chunks with partial write","delay_filter.py:load_delay_filter_and_write, frf.py:load_tophat_frfilter_and_write"),("filter cache","io.py")],
None,["output files"])

p("C17","Calibration solved in pieces equals calibration solved whole",
"Redundant and absolute calibration of a file give the same gains, flags, visibility solutions and quality measures, up to solver tolerance, whether integrations are loaded all at once or a few at a time, and integrations excluded for the Sun being up or for lack of a matching model are flagged and do not prevent the remaining integrations from being calibrated. Each integration's solution is stored at its own time.",
["configurations","inputs","crash_points"],
"For every number of integrations loaded at a time, every pattern of excluded integrations, and reruns after a crash.",
"Tests compare one or two load sizes on one file in which no integration is excluded at the start.",
["hera_cal/redcal.py","hera_cal/abscal.py","hera_cal/io.py"],
[("time slices and partial update","redcal.py:redcal_iteration, abscal.py:post_redcal_abscal_run")],
None,["calibration and visibility-solution files"])

p("C18","Smoothing a night of calibration files keeps every file's own integrations",
"Smoothing a set of calibration files writes for each input file the smoothed gains and flags of exactly that file's integrations and antennas, independent of the order in which the files are listed, and with smoothing turned off the written gains equal the inputs up to the common reference-antenna phase. The written flags are the input flags combined with externally supplied flag files by time, not by position, plus antennas below the antenna threshold. No antenna's smoothed gains depend on which other antennas are smoothed with it, other than through the reference phase.",
["inputs","schedules","crash_points"],
"For every number and size of files, gaps between files, listing order, flag pattern, and interruption part way through writing the set followed by a rerun.",
"Tests smooth one fixed list of files in chronological order.",
["hera_cal/smooth_cal.py","hera_cal/io.py"],
[("time grid and per-file time indices","smooth_cal.py:CalibrationSmoother"),("per-file output","smooth_cal.py:write_smoothed_cal")],
None,["smoothed calibration files"])

na=[]
p("N01","Redundant-calibration solvers recover gains up to degeneracies",
"For any array layout and noise-free redundant data, the redundant-calibration solvers return gains and visibilities that reproduce the data, unique up to the documented degeneracies.",
["inputs"],"For every layout, gain and visibility set.","Tests sample a few layouts.",["hera_cal/redcal.py"],[("solvers","redcal.py:RedundantCalibrator")])
p("N02","Visibility containers are conjugate-symmetric",
"Looking up, storing or counting a baseline with its antennas and polarization reversed is equivalent to using the conjugate of the stored baseline, through every container operation.",
["inputs","histories"],"For every key and operation sequence.","Tests sample a few keys.",["hera_cal/datacontainer.py"],[("conjugating lookup","datacontainer.py:DataContainer")])
p("N03","Absolute-calibration fits recover the injected degenerate parameters",
"For noise-free data that differ from the model only by amplitude, delay, phase-slope and overall phase terms, absolute calibration recovers those terms.",
["inputs"],"For every model and injected term.","Tests sample a few models.",["hera_cal/abscal.py"],[("fits","abscal.py")])
p("N04","Smoothing and inpainting filters preserve in-band signals",
"Filtering a gain or visibility that lies in the filter's pass band returns it unchanged on unflagged samples, and flagged samples never influence the result.",
["inputs"],"For every in-band signal and flag pattern.","Tests sample a few signals.",["hera_cal/smooth_cal.py","hera_cal/vis_clean.py","hera_cal/frf.py"],[("filters","smooth_cal.py, vis_clean.py, frf.py")])
p("N05","Predicted noise and chi-square statistics match their definitions",
"Noise predicted from autocorrelations and the chi-square and z-score statistics equal their defining formulas for every combination of flags and sample counts.",
["inputs"],"For every input.","Tests sample a few inputs.",["hera_cal/noise.py","hera_cal/utils.py","hera_cal/redcal.py"],[("formulas","noise.py, utils.py")])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
