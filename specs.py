"""What each check runs and reports."""
FS_REAL = "hera_cal, pyuvdata, h5py/HDF5, astropy and numpy run unmodified; every file-system call below the scratch directory passes the simulator"
FS_STUB = "storage faults, crashes and call order come from an LD_PRELOAD shim (sim/simfs.c) over a tmpfs; no network or clock is involved"
SPECS = {
    "C01": dict(
        technique="seeded line-granular thread schedules over the real parallel reader, compared with an independent model",
        note="Sampled schedules and inputs; absence of violations is evidence for the sampled seeds, not proof. Trusts the numpy model and the thread simulator.",
        scenarios={"stack": dict(quick=240, factor=12)},
        rule="Each run builds 1-5 visibility files (random nights, baselines, layouts, gains, flags, inpainting masks) and performs 1-3 "
             "LST-stack reads with 1-6 reader threads under a seeded schedule at line granularity; every stack is compared with an independent "
             "numpy model. Non-trivial: at least two reader threads ran and some bin received integrations.",
        real=["lst_bin_files_for_baselines and everything it calls", "concurrent.futures.ThreadPoolExecutor", FS_REAL],
        stubs=["thread scheduling, locks, queues, sleep and the monotonic clock (sim/threads.py)"],
        assumptions=["pre-emption inside C extensions is not simulated (they hold the GIL or h5py's lock)",
                     "inputs are written with pyuvdata; the model is numpy"]),
    "C02": dict(
        technique="seeded thread schedules with I/O errors, short reads, allocation failures and damaged inputs in the readers",
        note="Sampled fault points and schedules over the real reader. Trusts the numpy model and the storage shim.",
        scenarios={"faulty": dict(quick=280, factor=12)},
        rule="Each run performs one LST-stack read with 1-4 reader threads under a seeded schedule while a fault strikes (I/O error on an open or read, "
             "persistent disk error, short read, allocation failure at a random line of a reader, missing/truncated/foreign input file), then repeats the "
             "call in the same process without the fault. Non-trivial: the fault fired.",
        real=["lst_bin_files_for_baselines and everything it calls", "concurrent.futures.ThreadPoolExecutor", FS_REAL],
        stubs=["thread scheduling, locks, queues, sleep and the monotonic clock (sim/threads.py)", FS_STUB],
        assumptions=["a fault that leaves the returned stack exactly right counts as handled"]),
    "C03": dict(
        technique="seeded interleavings of several jobs at system-call granularity with crashes, torn writes and disk errors; history check",
        note="Sampled interleavings and crash points; a crash is process death (completed system calls survive).",
        scenarios={"cache": dict(quick=700, factor=12)},
        rule="Each run lets 2-5 jobs read and write one cache directory, every file-system call granted one at a time by a seeded scheduler, with crashes, "
             "torn writes and disk errors in some writers; every read is checked against the history of writes (published-before, begun-before), and a "
             "fresh job reads at the end. Non-trivial: more than four scheduling runs.",
        real=["io.read_filter_cache_scratch, io.write_filter_cache_scratch in separate processes", FS_REAL],
        stubs=[FS_STUB, "the filter matrices are small labelled arrays"],
        assumptions=["a crash keeps what the kernel had accepted (process death, not power loss)", "jobs draw different random file names"]),
    "C04": dict(
        technique="file-to-file stages run as simulated jobs over pre-existing files, with crashes and disk errors",
        note="Sampled stages, parameters and existing files; stages listed in scen/stages.py.",
        scenarios={"clobber": dict(quick=114, factor=10)},
        rule="Each run draws one pipeline stage with random inputs and options, places one to three files at its output paths (an earlier product, an unrelated file, an "
             "empty or truncated file, the wreck of a killed attempt), runs the stage with or without overwriting (with crashes and disk errors in a fifth of the "
             "no-overwrite runs) and compares bytes (no overwrite) or decoded content with a run into an empty directory (overwrite). Non-trivial: a file was in the way.",
        real=["the stage's hera_cal entry point or script, in its own process", FS_REAL],
        stubs=[FS_STUB], assumptions=["uvfits and miriad outputs are not exercised (uvfits overwrites by documented design)"]),
    "C05": dict(
        technique="file-to-file stages as simulated jobs, crashed or failed at seeded calls, alone or interleaved call by call on the same inputs",
        note="Sampled stages, crash points and interleavings.",
        scenarios={"inputs": dict(quick=114, factor=10), "sharing": dict(quick=80, factor=10)},
        rule="inputs: one stage with 0-3 faults at seeded file-system calls, optionally rerun; hashes of every input, of unrelated neighbours of the outputs and of the "
             "working directory are compared before and after, and after success no file exists that the caller did not name. sharing: two jobs on the same inputs, every "
             "call granted by a seeded scheduler; the undisturbed job must succeed with the reference content. Non-trivial: a fault fired / more than four scheduling runs.",
        real=["the stage's hera_cal entry point or script, in its own process", FS_REAL], stubs=[FS_STUB],
        assumptions=["files outside the scratch directory are not watched"]),
    "C06": dict(
        technique="seeded histories of reads, iterations, updates and I/O errors on one reader object, compared step by step with an independent model",
        note="Sampled layouts, selections and histories. Trusts the numpy model of the file contents.",
        scenarios={"reads": dict(quick=300, factor=20), "gains": dict(quick=120, factor=12)},
        rule="Each run writes 1-3 files and performs 2-7 seeded operations on one reader object (selections on every axis, interleaved chunk iterations, updates of the loaded arrays, "
             "reads that fail with an I/O error or a short read), checking every returned container, its metadata and, at the end, everything returned earlier. "
             "Non-trivial: more than one operation.",
        real=["HERAData, HERACal, HERADataFastReader, partial_time_io and the chunk iterators", FS_REAL], stubs=[FS_STUB],
        assumptions=["data are not baseline-dependent averaged", "3-tuple baselines select all their antenna pairs and polarizations, as documented"]),
    "C07": dict(
        technique="seeded programs of partial loads, updates and partial writes with crashes and restarts, compared with a whole-file model",
        note="Sampled layouts, chunkings, orders and crash points. Trusts the numpy model of the updates.",
        scenarios={"pieces": dict(quick=260, factor=20), "gains": dict(quick=120, factor=12)},
        rule="Each run lets one HERAData (or HERACal) object load, update and write a file piece by piece (by baselines, times, channels or polarizations, shuffled, with reversed keys, "
             "time/channel slices, interleaved outputs, in place or not), in a fifth of the runs killed or failed at a seeded call and restarted with overwriting; outputs are read with raw "
             "h5py and compared element by element with the model. Non-trivial: more than two steps.",
        real=["HERAData.read/update/partial_write/write, HERACal.read/update/write", FS_REAL], stubs=[FS_STUB],
        assumptions=["regions of an output no piece was written to are unspecified", "updating one name of a cross-hand autocorrelation updates its conjugate twin"]),
    "C08": dict(
        technique="the jobs of a divided piece of work run in seeded order in interpreters with different hash seeds, killed or failed and rerun; their shares are compared with the whole",
        note="Sampled file sets, chunkings, orders and crash points.",
        scenarios={"division": dict(quick=110, factor=24), "chunks": dict(quick=110, factor=16), "groups": dict(quick=200, factor=20), "spw": dict(quick=60, factor=14)},
        rule="division: every job of 1-11 computes its share of the baselines in one of two interpreters, in seeded order, files holding the baselines in different orders; the shares partition the whole. "
             "chunks: all chunking jobs of 1-6 visibility or calibration files, file lists shuffled per job, some jobs interrupted and rerun; each output holds its integrations, in order, unchanged. "
             "groups: baseline chunks by redundant group, computed repeatedly from the same argument. spw: spectral windows cut from a file, with interruptions. Non-trivial: more than one job or group.",
        real=["io.baselines_from_filelist_position, chunker.chunk_files, utils.chunk_baselines_by_redundant_groups, utils.select_spw_ranges, in separate processes", FS_REAL], stubs=[FS_STUB],
        assumptions=["all jobs are given the same files; a division by position is given the same list"]),
    "C09": dict(
        technique="regrouping jobs in seeded order and interpreters, killed or failed at seeded calls and rerun; conservation of every integration over all outputs",
        note="Sampled divisions, time ranges, orders and crash points; templates are contiguous in time.",
        scenarios={"regroup": dict(quick=80, factor=20), "turn": dict(quick=24, factor=20)},
        rule="regroup: 1-4 template files (equal or unequal lengths) and 1-4 baseline-chunk files (shuffled baselines, either orientation, time-averaged or not, fewer channels or polarizations, jittered times); "
             "one job per template, chunk lists shuffled, jobs in seeded order and interpreter, some interrupted and rerun, by exact times or by bounds. turn: time-averaging jobs make the chunk files "
             "from their shares first. Every integration of the chunk files must be in exactly one output, unchanged. Non-trivial: a job ran.",
        real=["vis_clean.time_chunk_from_baseline_chunks and its script, frf.time_avg_data_and_write, io.baselines_from_filelist_position", FS_REAL], stubs=[FS_STUB],
        assumptions=["all chunk files hold the same integrations", "template files are contiguous"]),
    "C10": dict(
        technique="file-to-file calibration jobs with different loading sizes, killed or failed at seeded calls and rerun; compared with the calibration equation",
        note="Sampled inputs, options and crash points. Trusts the numpy model of the calibration equation and of the redundant average; baseline-dependent averaging is not exercised.",
        scenarios={"apply": dict(quick=110, factor=14)},
        rule="Each run draws a visibility file, one or two calibrations (subsets of antennas, channels and times, gain convention, flags), extra flag sources and a mode (plain, redundant "
             "average, redundant solution) and applies the calibration whole and in two chunk sizes, some attempts being interrupted and rerun; every output is compared with the model.",
        real=["apply_cal.apply_cal and everything it calls", FS_REAL], stubs=[FS_STUB],
        assumptions=["visibilities of an antenna without a gain are flagged; their values are unspecified"]),
    "C11": dict(
        technique="file-to-file stages killed or failed at seeded file-system calls, then rerun; content compared with an uninterrupted run",
        note="Sampled stages and crash points; a crash is process death (completed system calls survive, the last write may be torn).",
        scenarios={"rerun": dict(quick=114, factor=10)},
        rule="Each run draws a stage, interrupts it one to three times (kill before, in the middle of or after a seeded call, disk error, full disk), possibly over products of "
             "an earlier campaign, then reruns it with overwriting in a new process or, after an error, in the same process. Non-trivial: an attempt was interrupted.",
        real=["the stage's hera_cal entry point or script, in its own process", FS_REAL], stubs=[FS_STUB],
        assumptions=["a crash keeps what the kernel had accepted (process death, not power loss)"]),
    "C12": dict(
        technique="file-to-file stages with disk errors at seeded file-system calls or spoiled inputs; success is checked against a fault-free run",
        note="Sampled stages and error points. Headers that pyuvdata itself treats as optional are not compared for uvh5 files.",
        scenarios={"errors": dict(quick=171, factor=10)},
        rule="Each run draws a stage and injects one to three I/O errors (EIO, ENOSPC, EACCES, EMFILE, ESTALE, ENOENT, short transfers, persistent failure, full disk) at "
             "seeded calls, or spoils an input file; if the job returns normally, its outputs must equal those of the fault-free run. Non-trivial: the fault was hit.",
        real=["the stage's hera_cal entry point or script, in its own process", FS_REAL], stubs=[FS_STUB],
        assumptions=["errors are reported by the failing call; silent corruption by the disk is out of scope"]),
    "C13": dict(
        technique="a season planned and LST-binned by several jobs in seeded order and interpreters, killed or failed and rerun; compared with an independent numpy model",
        note="Sampled seasons, grids, job divisions and crash points. Trusts the numpy model; inpainting inside the stack (flag-based inpainting) is not part of these products.",
        scenarios={"bins": dict(quick=55, factor=24)},
        rule="Each run makes a season (files, gains, inpainting masks, missing baselines and polarizations, redundantly averaged or not), plans it, divides the output files among 1-3 jobs "
             "with different baseline chunk sizes and interpreters, some from a plan made from a shuffled listing, some interrupted and rerun, some repeated, and compares mean, standard deviation, "
             "median, deviation, sample counts, night counts and flags of every bin with the model. Non-trivial: a bin received an integration.",
        real=["lst_stack.config, lst_stack.wrappers.lst_bin_files and everything they call", FS_REAL], stubs=[FS_STUB],
        assumptions=["the value under a flagged mean is unspecified", "integrations within 3e-9 rad of a bin edge may go to either bin"]),
    "C14": dict(
        technique="planning, planning from shuffled listings, and reading jobs in different interpreters, some planning jobs killed or failed and rerun; coverage of every integration against an independent grid",
        note="Sampled seasons and grids. Files of one night have equal lengths except the last.",
        scenarios={"plan": dict(quick=220, factor=14)},
        rule="Each run makes a season of 1-3 nights of 1-5 files, plans it on a drawn LST grid (window or full circle, wrap-around, any number of bins per file, names or metadata for times, calibration and "
             "inpainting rules, ignored antennas), reads the plan back in another interpreter, plans again with nights and files listed in another order, and checks that every integration inside the grid is under "
             "exactly one output file, with its own products. Non-trivial: some integration lay in the grid.",
        real=["lst_stack.config.LSTBinConfigurator, LSTConfig, LSTConfigSingle, utils.match_files_to_lst_bins", FS_REAL], stubs=[FS_STUB],
        assumptions=["integrations within 2e-9 rad of a bin edge may go to either side", "all files of a night but the last have the same number of integrations"]),
    "C15": dict(
        technique="writing jobs killed or failed at seeded calls and rerun, reading and combining jobs in another interpreter with the files in seeded order; what is read is compared with what was given to the writer",
        note="Sampled contents, orders and crash points; calfits and HDF5 products.",
        scenarios={"cal": dict(quick=90, factor=14), "combine": dict(quick=70, factor=14), "vis": dict(quick=50, factor=14), "meta": dict(quick=50, factor=14), "snap": dict(quick=40, factor=14)},
        rule="cal: solutions with zeros, non-finite flagged values, missing antennas or sparse updates written in one of four ways and read in one of three. combine: 1-4 files combined, multiplied or read together "
             "in two orders, antennas and polarizations in a different order in each file. vis: visibilities with either conjugation written or updated and read in one of three ways. meta: redundant-calibration "
             "metadata and LST calibration solutions. snap: decoherence files with different SNAPs, times and antennas merged in two orders; clashing ones must be refused. Any writer may be interrupted and rerun. "
             "Non-trivial: something was written (merges: more than one file).",
        real=["io.write_cal, update_cal, HERACal, read_hera_calfits, load_cal, write_vis, update_vis, HERAData, load_vis, save/read_redcal_meta, SNAPDecoherence; utils.combine_calfits; abscal.multiply_gains; "
              "lst_stack.calibration write/load solutions", FS_REAL], stubs=[FS_STUB],
        assumptions=["calfits times and frequencies are evenly spaced (the format holds nothing else)"]),
    "C16": dict(
        technique="filtering and averaging jobs with different chunkings, cache states, orders and interpreters, killed or failed at seeded calls and rerun; compared with one undisturbed run over everything or with the definition",
        note="Sampled inputs, chunkings, cache histories and crash points; the filters themselves are compared with their own unchunked result, the averages with a numpy definition.",
        scenarios={"delay": dict(quick=40, factor=14), "frf": dict(quick=36, factor=14), "timeavg": dict(quick=70, factor=14), "redavg": dict(quick=60, factor=14)},
        rule="delay, frf: a reference job filters all baselines at once without a cache; variants load 1-6 baselines at a time or divide the baselines among 1-3 jobs in seeded order and interpreter, with no, cold, "
             "warm (other data) or shared cache, some interrupted and rerun; the union of their outputs must equal the reference. timeavg: 1-4 jobs average their baselines over 1-3 files (interleaves, rephasing, "
             "weightings, LST wrap) and are compared with the definition. redavg: the script against the definition. Non-trivial: the reference ran.",
        real=["delay_filter.load_delay_filter_and_write, frf.load_tophat_frfilter_and_write, frf.time_avg_data_and_write, scripts/red_average.py", FS_REAL], stubs=[FS_STUB],
        assumptions=["loading baselines a few at a time from several files is not supported by partial writing and not exercised"]),
    "C17": dict(
        technique="calibration jobs with different loading sizes in two interpreters, killed or failed at seeded calls and rerun; compared with one undisturbed run over everything and with the data and model",
        note="Sampled arrays, exclusion patterns, loading sizes and crash points; solutions compared to 2e-3 of their scale.",
        scenarios={"redcal": dict(quick=36, factor=12), "abscal": dict(quick=40, factor=12)},
        rule="redcal: a file with gains of their own in every integration, some integrations excluded by the Sun (at the start, the end, the middle or both ends), excluded antennas and channels, is calibrated all at "
             "once and 1..n+2 integrations at a time; gains times visibility solutions must give the data back, excluded integrations are flagged, and the pieces agree with the whole. abscal: models on another night "
             "and LST grid in 1-3 files in any order, covering some of the integrations; calibrated data must be the model. Non-trivial: the reference ran.",
        real=["redcal.redcal_run, abscal.post_redcal_abscal_run and everything they call", FS_REAL], stubs=[FS_STUB],
        assumptions=["noise is small enough for the solvers to converge; the solvers' own accuracy is N01 and N03"]),
    "C18": dict(
        technique="smoothing jobs over files listed in seeded orders in two interpreters, killed or failed at seeded calls and rerun; compared with the inputs, with the chronological run and with every antenna smoothed alone",
        note="Sampled nights, listing orders, flag files and crash points.",
        scenarios={"smooth": dict(quick=64, factor=12)},
        rule="1-5 calibration files with gaps, flags, fully flagged antennas and non-finite flagged gains, file names in or out of chronological order, and flag files per antenna, polarization or baseline, cut "
             "along the same or other boundaries, go through scripts/smooth_cal_run.py or CalibrationSmoother with no, frequency or two-dimensional (CLEAN, DPSS) smoothing. Every output must hold its own file's times, channels, "
             "antennas and flags (combined with the external flags by time); without smoothing the gains equal the inputs up to one reference antenna per polarization; listing order, interruptions and the other "
             "antennas must not matter. Non-trivial: the job ran on at least three integrations.",
        real=["smooth_cal.CalibrationSmoother, scripts/smooth_cal_run.py", FS_REAL], stubs=[FS_STUB],
        assumptions=["an antenna exists whose flags are common to all others, as the automatic choice of a reference antenna requires"]),
}
