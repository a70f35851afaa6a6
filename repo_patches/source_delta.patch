From acb9bdf2bc51ea823926b9c4a1c0256439a27758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:02 +0000
Subject: [PATCH 01/47] fix: DataContainer.select_freqs picked the time axis
 when Ntimes equals Nfreqs

---
 hera_cal/datacontainer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hera_cal/datacontainer.py b/hera_cal/datacontainer.py
index 3f24509..a8af2f4 100644
--- a/hera_cal/datacontainer.py
+++ b/hera_cal/datacontainer.py
@@ -586,7 +586,9 @@ class DataContainer:
             warnings.warn("It is impossible to automatically detect which axis is frequency. Trying last axis.")
             axis = -1
         else:
-            axis = obj[next(iter(obj.keys()))].shape.index(len(obj.freqs))
+            # frequency is the trailing axis, so look for it from the end: Ntimes may equal Nfreqs
+            shape = obj[next(iter(obj.keys()))].shape
+            axis = len(shape) - 1 - shape[::-1].index(len(obj.freqs))
         for bl in obj:
             obj[bl] = obj[bl].take(channels, axis=axis)
 
-- 
2.43.0


From 594752b9e40048dc83481f77b8323a56887798fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:02 +0000
Subject: [PATCH 02/47] fix: lst_bin_files_for_baselines left its LST bin edges
 in the caller's cal_file_loader_kwargs

---
 hera_cal/lst_stack/binning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hera_cal/lst_stack/binning.py b/hera_cal/lst_stack/binning.py
index 9150294..d206c14 100644
--- a/hera_cal/lst_stack/binning.py
+++ b/hera_cal/lst_stack/binning.py
@@ -698,8 +698,8 @@ def lst_bin_files_for_baselines(
 
     # Add LST filtering info to cal_file_loader_kwargs if using custom loader
     if cal_file_loader is not None:
-        if cal_file_loader_kwargs is None:
-            cal_file_loader_kwargs = {}
+        # work on a copy, so that the caller's dictionary is not modified
+        cal_file_loader_kwargs = dict(cal_file_loader_kwargs or {})
 
         # Add LST bin edges if not already present
         if 'lst_bin_edges' not in cal_file_loader_kwargs:
-- 
2.43.0


From 87b1d88d49a5308bd85d02a13d96963a38658367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:46 +0000
Subject: [PATCH 03/47] fix: write_filter_cache_scratch let other nodes read
 half-written cache files

---
 hera_cal/io.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index 9c73fd6..09f6617 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -1644,8 +1644,18 @@ def write_filter_cache_scratch(filter_cache, cache_dir=None, skip_keys=None):
             cache_dir = os.getcwd()
         cache_file_name = '%032x' % random.getrandbits(128) + '.filter_cache'
 
-        with open(os.path.join(cache_dir, cache_file_name), 'ab') as cfile:
-            pickle.dump(new_filters, cfile)
+        # write under a name that readers ignore and publish the finished file in one step, so that
+        # no other node ever loads a cache file that is incomplete or was left behind by a dead writer.
+        cache_file = os.path.join(cache_dir, cache_file_name)
+        partial_file = cache_file + '.partial'
+        try:
+            with open(partial_file, 'wb') as cfile:
+                pickle.dump(new_filters, cfile)
+            os.replace(partial_file, cache_file)
+        except BaseException:
+            if os.path.exists(partial_file):
+                os.remove(partial_file)
+            raise
     else:
         warnings.warn("No new keys provided. No cache file written.")
 
-- 
2.43.0


From e038813ee5cd79a3e928c81045a25a2ca1c9eb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:16 +0000
Subject: [PATCH 04/47] fix: match_files_to_lst_bins dropped whole nights when
 rounding put a full circle's last edge past its first

---
 hera_cal/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index b533b5d..dbb96e1 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1622,8 +1622,11 @@ def match_files_to_lst_bins(
         jdstart_for_file = jdstart - tint * (ntimes_per_file - 1) - atol
 
         # The lst-edges might wrap around within a day. If so, when comparing times
-        # to the bins, we need to use an OR instead of an AND.
-        cmp = operator.and_ if (jdstart < jdend) else operator.or_
+        # to the bins, we need to use an OR instead of an AND. If they cover the full
+        # circle, they start and end at the same JD to within rounding error, which
+        # always is a wrap (no matter which of the two comes out larger).
+        full_circle = np.isclose(lstmax - lstmin, 2 * np.pi, atol=1e-10)
+        cmp = operator.and_ if (jdstart < jdend and not full_circle) else operator.or_
 
         index = 0
         meta = meta_list[index]
-- 
2.43.0


From 445f53a47acb3b683659653bcc3c96effd425552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:16 +0000
Subject: [PATCH 05/47] fix: redcal_iteration made empty time slices when
 solar-flagged integrations were skipped with nInt_to_load

---
 hera_cal/redcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index 1403f11..66cdc34 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -1882,7 +1882,7 @@ def redcal_iteration(hd, nInt_to_load=None, pol_mode='2pol', bl_error_tol=1.0, e
             nInt_to_load = nTimes
         start_ind = np.min(np.arange(nTimes)[~solar_flagged])
         stop_ind = np.max(np.arange(nTimes)[~solar_flagged])
-        tSlices = [slice(start_ind + i, min(start_ind + i + nInt_to_load, stop_ind + 1)) for i in range(0, nTimes, nInt_to_load)]
+        tSlices = [slice(start_ind + i, min(start_ind + i + nInt_to_load, stop_ind + 1)) for i in range(0, stop_ind + 1 - start_ind, nInt_to_load)]
 
         for tSlice in tSlices:
             # get DataContainers, performing i/o if necessary
-- 
2.43.0


From 3b33e2f49b81b312c8b37a7692800ede333ee8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:16 +0000
Subject: [PATCH 06/47] fix: redcal_iteration did not load any data when
 nInt_to_load equals the number of integrations

---
 hera_cal/redcal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index 66cdc34..59a569c 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -1841,6 +1841,8 @@ def redcal_iteration(hd, nInt_to_load=None, pol_mode='2pol', bl_error_tol=1.0, e
 
     # get basic antenna, polarization, and observation info
     nTimes, nFreqs = len(hd.times), len(hd.freqs)
+    if nInt_to_load == nTimes and hd.data_array is None:  # all integrations at once, so load the whole file
+        hd.read()
     fSlice = slice(flag_nchan_low, nFreqs - flag_nchan_high)
     antpols = list(set([ap for pol in hd.pols for ap in split_pol(pol)]))
     ant_nums = np.unique(np.append(hd.ant_1_array, hd.ant_2_array))
-- 
2.43.0


From a497711192c9bd53cc34b4f000b8ef03933b0391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:41 +0000
Subject: [PATCH 07/47] fix: write_vis overwrote an existing file with
 overwrite=False

---
 hera_cal/io.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index 09f6617..956b03d 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -2316,6 +2316,8 @@ def write_vis(fname, data, lst_array, freq_array, antpos, time_array=None, flags
     if write_file:
         # check output
         fname = os.path.join(outdir, fname)
+        if filetype not in ('miriad', 'uvh5'):
+            raise AttributeError("didn't recognize filetype: {}".format(filetype))
         if os.path.exists(fname) and overwrite is False:
             if verbose:
                 print("{} exists, not overwriting".format(fname))
@@ -2323,12 +2325,10 @@ def write_vis(fname, data, lst_array, freq_array, antpos, time_array=None, flags
             if verbose:
                 print("saving {}".format(fname))
 
-        if filetype == 'miriad':
-            uvd.write_miriad(fname, clobber=True)
-        elif filetype == 'uvh5':
-            uvd.write_uvh5(fname, clobber=True)
-        else:
-            raise AttributeError("didn't recognize filetype: {}".format(filetype))
+            if filetype == 'miriad':
+                uvd.write_miriad(fname, clobber=True)
+            else:
+                uvd.write_uvh5(fname, clobber=True)
 
     if return_uvd:
         return uvd
-- 
2.43.0


From 5630e3ac39bc6a0903d6e055ff14a6db1c348bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:41 +0000
Subject: [PATCH 08/47] fix: combine_calfits looked for an existing output
 outside of outdir and overwrote it

---
 hera_cal/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index dbb96e1..cc10687 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -756,7 +756,7 @@ def combine_calfits(files, fname, outdir=None, overwrite=False, broadcast_flags=
         outdir = "./"
 
     output_fname = os.path.join(outdir, fname)
-    if os.path.exists(fname) and overwrite is False:
+    if os.path.exists(output_fname) and overwrite is False:
         raise IOError("{} exists, not overwriting".format(output_fname))
 
     # iterate over files
-- 
2.43.0


From 023c8afb5f7f4fc8d18b8560b2d73f7e2a55a79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:42 +0000
Subject: [PATCH 09/47] fix: post_redcal_abscal_run overwrote an existing
 delta-gain file with clobber=False

---
 hera_cal/abscal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index 2c30218..bbac91b 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -4155,6 +4155,8 @@ def post_redcal_abscal_run(data_file, redcal_file, model_files, raw_auto_file=No
         output_file = redcal_file.replace('.omni.', '.abs.')
     if os.path.exists(output_file) and not clobber:
         raise IOError("{} exists, not overwriting.".format(output_file))
+    if write_delta_gains and output_file_delta is not None and os.path.exists(output_file_delta) and not clobber:
+        raise IOError("{} exists, not overwriting.".format(output_file_delta))
 
     # Make raw_auto_file the data_file if None when appropriate, otherwise raise an error
     if raw_auto_file is None:
@@ -4312,7 +4314,7 @@ def post_redcal_abscal_run(data_file, redcal_file, model_files, raw_auto_file=No
         delta_gains = {ant: abscal_gains[ant] / rc_gains[ant] for ant in abscal_gains}
         hcdelta.update(gains=delta_gains)
         assert output_file_delta is not None, "output_file_delta must be specified if write_delta_gains=True"
-        hcdelta.write_calfits(output_file_delta, clobber=True)
+        hcdelta.write_calfits(output_file_delta, clobber=clobber)
     return hc
 
 
-- 
2.43.0


From ff2d22fe05d058d2bb3e352c6d97ab9810d56134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:35 +0000
Subject: [PATCH 10/47] fix: pick_reference_antenna failed when candidates with
 equally many flags are flagged at different places

---
 hera_cal/smooth_cal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/smooth_cal.py b/hera_cal/smooth_cal.py
index d98e9a6..8c05558 100644
--- a/hera_cal/smooth_cal.py
+++ b/hera_cal/smooth_cal.py
@@ -669,7 +669,7 @@ def pick_reference_antenna(gains, flags, freqs, per_pol=True, acceptable_candida
             refant_rephasor = np.abs(gains[ref] * rephasors[ref]) / (gains[ref] * rephasors[ref])
             angle_noise = [interleaved_noise_variance_estimate(np.angle(gains[ant] * rephasors[ant] * refant_rephasor),
                            kernel=[[-.5, 1, -.5]])[~(flags[ant] | flags[ref])] for ant in candidates]
-            median_angle_noise_as_refant[ref] = np.median(angle_noise)
+            median_angle_noise_as_refant[ref] = np.median(np.concatenate(angle_noise))
         return sorted(median_angle_noise_as_refant, key=median_angle_noise_as_refant.__getitem__)[0]
 
     def select_closest_to_center(candidates, antpos, flags):
-- 
2.43.0


From b881453c78005fed3744c4676cd53e030b256a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:57 +0000
Subject: [PATCH 11/47] fix: lst_bin_files failed on output files of which some
 LST bins hold no integrations

---
 hera_cal/lst_stack/binning.py  |  9 +++++++--
 hera_cal/lst_stack/wrappers.py | 15 +++++++++++----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/hera_cal/lst_stack/binning.py b/hera_cal/lst_stack/binning.py
index d206c14..3aaa043 100644
--- a/hera_cal/lst_stack/binning.py
+++ b/hera_cal/lst_stack/binning.py
@@ -1302,8 +1302,8 @@ def lst_bin_files_from_config(
     Returns
     -------
     list[LSTStack] or None
-        A list of LSTStack objects, one for each LST bin. If there is no data to read,
-        returns None. The LSTStack object looks and feels just like a UVData object, but
+        A list of LSTStack objects, one for each LST bin, with None for bins that contain
+        no integrations. If there is no data to read, returns None. The LSTStack object looks and feels just like a UVData object, but
         has some additional properties and methods that are useful for LST-stacked data,
         as well as validating that the data is in the correct format.
 
@@ -1365,6 +1365,11 @@ def lst_bin_files_from_config(
 
     for (d, f, n, wf, bt) in zip(data, flags, nsamples, where_inpainted, binned_times):
 
+        if len(bt) == 0:
+            # No integrations fall in this LST bin
+            out.append(None)
+            continue
+
         # To enable inpaint-mode, set nsamples where things are flagged and inpainted
         # to zero, and set the flags to false.
         if wf is not None:
diff --git a/hera_cal/lst_stack/wrappers.py b/hera_cal/lst_stack/wrappers.py
index b94a2cd..8659975 100644
--- a/hera_cal/lst_stack/wrappers.py
+++ b/hera_cal/lst_stack/wrappers.py
@@ -216,7 +216,7 @@ def lst_bin_files_single_outfile(
         nbls_so_far: int,
     ):
         """Process a single chunk of baselines."""
-        stacks: list[LSTStack] = lst_bin_files_from_config(
+        stacks: list[LSTStack | None] = lst_bin_files_from_config(
             config,
             bl_chunk_to_load=bl_chunk,
             nbl_chunks=n_bl_chunks,
@@ -224,16 +224,23 @@ def lst_bin_files_single_outfile(
             freq_min=freq_min,
             freq_max=freq_max,
         )
-        chunk_size = stacks[0].Nbls
+        first = next(stack for stack in stacks if stack is not None)
+        chunk_size = first.Nbls
         slc = slice(nbls_so_far, nbls_so_far + chunk_size)
 
-        dshape = (chunk_size, stacks[0].Nfreqs, stacks[0].Npols)
+        dshape = (chunk_size, first.Nfreqs, first.Npols)
+        # bins without any integrations are reduced (to flagged NaNs) all the same
+        empty = dict(
+            data=np.zeros((0,) + dshape, dtype=complex),
+            flags=np.zeros((0,) + dshape, dtype=bool),
+            nsamples=np.zeros((0,) + dshape),
+        )
 
         for inpainted in inpaint_modes:
             for lstidx, stack in enumerate(stacks):
 
                 rdc = reduce_lst_bins(
-                    lststack=stack,
+                    **(empty if stack is None else {"lststack": stack}),
                     inpainted_mode=inpainted,
                     get_mad=write_med_mad,
                 )
-- 
2.43.0


From 9d3701bac0c23cdf21dc290f0ee16c6d809e0e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:34 +0000
Subject: [PATCH 12/47] fix: uvdata_from_fastuvh5 computed uvws for the blt
 order of the file instead of the requested one

---
 hera_cal/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index 956b03d..fcda29d 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -2933,6 +2933,9 @@ def uvdata_from_fastuvh5(
     uvd._set_app_coords_helper()
     uvd.extra_keywords = meta.extra_keywords
 
+    # The uvws are computed for the blt order set up above, not the one in the file.
+    uvd.blts_are_rectangular = True
+    uvd.time_axis_faster_than_bls = timefirst
     uvd.set_uvws_from_antenna_positions()
     # Overwrite some of the metadata.
     for key, value in kwargs.items():
-- 
2.43.0


From 85dba5c7eac2a3496772ded0fc7ebec5137ea25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:42 +0000
Subject: [PATCH 13/47] fix: load_delay_filter_and_write with
 apply_flag_to_nsample looked up baselines of other chunks

---
 hera_cal/delay_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/delay_filter.py b/hera_cal/delay_filter.py
index 0c08a57..f567920 100644
--- a/hera_cal/delay_filter.py
+++ b/hera_cal/delay_filter.py
@@ -201,7 +201,7 @@ def load_delay_filter_and_write(datafile_list, baseline_list=None, calfile_list=
             if apply_flag_to_nsample:
                 logger.info("  Applying flags to nsample arrays")
                 # Modify self.hd.nsamples
-                for bl in baseline_list[i:i + Nbls_per_load]:
+                for bl in baseline_list[i * Nbls_per_load:(i + 1) * Nbls_per_load]:
                     _nsample = np.copy(df.hd.get_nsamples(bl))
                     _nsample[df.hd.get_flags(bl)] = 0
                     if _nsample.ndim == 2:
-- 
2.43.0


From 6dd663a5dcb2160ac8814752e4c446e53cf84585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:59 +0000
Subject: [PATCH 14/47] fix: baselines_from_filelist_position divided baselines
 by their order in each job's own file

---
 hera_cal/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index fcda29d..977df1d 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -2768,7 +2768,7 @@ def baselines_from_filelist_position(filename, filelist):
     """
     # The reason this function is not in utils is that it needs to use HERAData
     hd = HERAData(filename)
-    bls = list(set([bl[:2] for bl in hd.bls]))
+    bls = sorted(set([bl[:2] for bl in hd.bls]))
     file_index = filelist.index(filename)
     nfiles = len(filelist)
     # Determine chunk size
-- 
2.43.0


From 2a71337767364ab40284510e2685fd6b82525a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:59 +0000
Subject: [PATCH 15/47] fix: iterate_over_bls by redundant group yielded
 nothing for several files

---
 hera_cal/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index 977df1d..7274ad1 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -1158,7 +1158,7 @@ class HERAData(UVData):
                         data_antpos.update(self.data_antpos[k])
                     pols = set({})
                     for k in self.pols:
-                        pols.union(set(self.pols[k]))
+                        pols = pols.union(set(self.pols[k]))
                     pols = list(pols)
                 else:
                     data_antpos = self.data_antpos
-- 
2.43.0


From 9c6c8d935b1f93578d5d17a175bed344633aed23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:59 +0000
Subject: [PATCH 16/47] fix: iterating over times or frequencies failed for
 files of unequal lengths

---
 hera_cal/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index 7274ad1..585a67c 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -1191,7 +1191,7 @@ class HERAData(UVData):
                                           + ' without setting freqs has not been implemented.')
             freqs = self.freqs
             if isinstance(self.freqs, dict):  # multiple files
-                freqs = np.unique(list(self.freqs.values()))
+                freqs = np.unique(np.concatenate(list(self.freqs.values())))
         for i in range(0, len(freqs), Nchans):
             yield self.read(frequencies=freqs[i:i + Nchans])
 
@@ -1215,7 +1215,7 @@ class HERAData(UVData):
                                           + ' without setting times has not been implemented.')
             times = self.times
             if isinstance(times, dict):  # multiple files
-                times = np.unique(list(times.values()))
+                times = np.unique(np.concatenate(list(times.values())))
         for i in range(0, len(times), Nints):
             yield self.read(times=times[i:i + Nints])
 
-- 
2.43.0


From 59e9961ffc8939d62041c95d6a9eebfae5accbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:34 +0000
Subject: [PATCH 17/47] fix: do not mistake square files (Nfreqs == Npols) for
 polarization-transposed ones in read_hera_hdf5

---
 hera_cal/io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index 585a67c..b0ff9c9 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -1420,8 +1420,8 @@ def read_hera_hdf5(filenames, bls=None, pols=None, full_read_thresh=0.002,
 
                 # Support old array shapes
                 if len(d.shape) == 4:
-                    # Support polarization-transposed arrays
-                    if d.shape[-1] == nfreqs:
+                    # Support polarization-transposed arrays (the standard order is assumed if Nfreqs == Npols)
+                    if d.shape[-1] == nfreqs and nfreqs != npols:
                         def index_exp(i, j, p):
                             return np.index_exp[inds[i, j], 0, pol_indices[p]]
                     else:
@@ -1429,8 +1429,8 @@ def read_hera_hdf5(filenames, bls=None, pols=None, full_read_thresh=0.002,
                             return np.index_exp[inds[i, j], 0, :, pol_indices[p]]
                 # Support new array shapes
                 if len(d.shape) == 3:
-                    # Support polarization-transposed arrays
-                    if d.shape[-1] == nfreqs:
+                    # Support polarization-transposed arrays (the standard order is assumed if Nfreqs == Npols)
+                    if d.shape[-1] == nfreqs and nfreqs != npols:
                         def index_exp(i, j, p):
                             return np.index_exp[inds[i, j], pol_indices[p]]
                     else:
-- 
2.43.0


From 2d9c92fc2405b4aeaf08cd7a0639ac814f50a438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:27 +0000
Subject: [PATCH 18/47] fix: keep baselines stored in the opposite orientation
 when apply_cal redundantly averages a whole file

---
 hera_cal/apply_cal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/apply_cal.py b/hera_cal/apply_cal.py
index 7888a61..b26c328 100644
--- a/hera_cal/apply_cal.py
+++ b/hera_cal/apply_cal.py
@@ -986,7 +986,7 @@ def apply_cal(data_infilename, data_outfilename, new_calibration, old_calibratio
         if redundant_average:
             all_red_antpairs = [[bl[:2] for bl in grp] for grp in all_reds if grp[-1][-1] == pols[0]]
             data_antpairs = hd.get_antpairs()
-            reds_data = [[bl for bl in blg if bl in data_antpairs] for blg in all_red_antpairs]
+            reds_data = [[bl for bl in blg if bl in data_antpairs or bl[::-1] in data_antpairs] for blg in all_red_antpairs]
             reds_data = [blg for blg in reds_data if len(blg) > 0]
         for bl in data_flags.keys():
             # apply band edge flags
-- 
2.43.0


From 26822bd5c3a600b3ca6bfef98249d1666f5fa9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:27 +0000
Subject: [PATCH 19/47] fix: write only the calibrated channels when apply_cal
 loads a few baselines at a time

---
 hera_cal/apply_cal.py | 3 ++-
 hera_cal/io.py        | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/hera_cal/apply_cal.py b/hera_cal/apply_cal.py
index b26c328..9d5767b 100644
--- a/hera_cal/apply_cal.py
+++ b/hera_cal/apply_cal.py
@@ -962,7 +962,8 @@ def apply_cal(data_infilename, data_outfilename, new_calibration, old_calibratio
                     else:
                         vis_units = hd.vis_units
                     # partial write works for no redundant averaging.
-                hd.partial_write(data_outfilename, inplace=True, clobber=clobber, add_to_history=add_to_history, vis_units=vis_units, **kwargs)
+                hd.partial_write(data_outfilename, inplace=True, clobber=clobber, add_to_history=add_to_history,
+                                 frequencies=freqs_to_load, vis_units=vis_units, **kwargs)
 
         if redundant_average:
             # if we did redundant averaging, just write the redundant dataset out in the end at once.
diff --git a/hera_cal/io.py b/hera_cal/io.py
index b0ff9c9..eb73e6f 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -1033,7 +1033,7 @@ class HERAData(UVData):
         return data_array
 
     def partial_write(self, output_path, data=None, flags=None, nsamples=None,
-                      clobber=False, inplace=False, add_to_history='',
+                      clobber=False, inplace=False, add_to_history='', frequencies=None,
                       **kwargs):
         '''Writes part of a uvh5 file using DataContainers whose shape matches the most recent
         call to HERAData.read() in this object. The overall file written matches the shape of the
@@ -1051,6 +1051,8 @@ class HERAData(UVData):
                 This saves memory but alters the HERAData object.
             add_to_history: string to append to history (only used on first call of
                 partial_write for a given output_path)
+            frequencies: Optional list of the frequencies in the output file, if it is not to hold all those
+                in the input file (only used on first call of partial_write for a given output_path).
             kwargs: addtional keyword arguments update UVData attributes. (Only used on
                 first call of partial write for a given output_path).
         '''
@@ -1065,6 +1067,8 @@ class HERAData(UVData):
             hd_writer = self._writers[output_path]  # This hd_writer has metadata for the entire output file
         else:
             hd_writer = HERAData(self.filepaths[0])
+            if frequencies is not None:
+                hd_writer.select(frequencies=frequencies)
             hd_writer.history += add_to_history
             for attribute, value in kwargs.items():
                 hd_writer.__setattr__(attribute, value)
-- 
2.43.0


From ad3118b1a500650132bebcb6ccb68d09e783013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:33 +0000
Subject: [PATCH 20/47] fix: do not calibrate cross-polarized autos twice in
 calibrate_redundant_solution when only one of the pair is loaded

---
 hera_cal/apply_cal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hera_cal/apply_cal.py b/hera_cal/apply_cal.py
index 9d5767b..7bbee1c 100644
--- a/hera_cal/apply_cal.py
+++ b/hera_cal/apply_cal.py
@@ -70,6 +70,7 @@ def calibrate_redundant_solution(data, data_flags, new_gains, new_flags, all_red
     assert np.all([ant in old_gains for ant in new_gains])
     assert np.all([ant in old_flags for ant in new_gains])
 
+    calibrated = set()
     for red in all_reds:
         # skip if there's nothing to calibrate
         if np.all([bl not in data for bl in red]):
@@ -105,6 +106,11 @@ def calibrate_redundant_solution(data, data_flags, new_gains, new_flags, all_red
         # Apply average gains ratios and update flags
         for bl in red:
             if bl in data:
+                # cross-polarized autos are in two groups, but may be in data under only one of their two names
+                data_bl = bl if bl in data.keys() else utils.reverse_bl(bl)
+                if data_bl in calibrated:
+                    continue
+                calibrated.add(data_bl)
                 data_flags[bl] |= avg_flags
                 data[bl] *= avg_gains**exponent
 
-- 
2.43.0


From 7ba1c372efa7e6639dde501d0a6acdb88981b0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:33 +0000
Subject: [PATCH 21/47] fix: redundantly average cross-polarizations when data
 hold only the reverse of a baseline

---
 hera_cal/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index cc10687..7ccbf66 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1371,7 +1371,9 @@ def red_average(data, reds=None, bl_tol=1.0, inplace=False,
 
     # get metadata
     if fed_container:
-        pols = sorted(data.pols())
+        data_pols = set(data.pols())
+        # a baseline in reds may be the reverse of the one in data, and so have the conjugate polarization
+        pols = sorted(data_pols | set(conj_pol(pol) for pol in data_pols))
     else:
         pols = [polnum2str(pol, x_orientation=data.telescope.get_x_orientation_from_feeds()) for pol in data.polarization_array]
 
@@ -1401,6 +1403,8 @@ def red_average(data, reds=None, bl_tol=1.0, inplace=False,
         for blg, blk in zip(reds, red_bl_keys):
             # get data and weighting for this pol-blgroup
             if fed_container:
+                if not any(bl + (pol,) in data for bl in blg) or (blk[0] == blk[1] and pol not in data_pols):
+                    continue
                 d = np.asarray([data[bl + (pol,)] for bl in blg])
                 f = np.asarray([(~flags[bl + (pol,)]).astype(float) for bl in blg])
                 n = np.asarray([nsamples[bl + (pol,)] for bl in blg])
-- 
2.43.0


From b1569d80eecfd93fe829765dfee09ee334f0033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:06 +0000
Subject: [PATCH 22/47] fix: chunk_baselines_by_redundant_groups no longer
 appends to the caller's redundant groups

---
 hera_cal/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index 7ccbf66..7e20068 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1828,7 +1828,7 @@ def chunk_baselines_by_redundant_groups(reds, max_chunk_size):
                           " of baselines exceeding max_chunk_size=%d."
                           " First baseline is %s"
                           " Loading group anyways." % (len(reds[group_index]), max_chunk_size, str(reds[group_index][0])))
-            baseline_chunks.append(grp)
+            baseline_chunks.append(list(grp))
         else:
             # if baseline_chunks is empty, initialize the first chunk.
             if len(baseline_chunks) == 0:
@@ -1836,7 +1836,7 @@ def chunk_baselines_by_redundant_groups(reds, max_chunk_size):
             if len(baseline_chunks[-1]) + len(grp) <= max_chunk_size:
                 baseline_chunks[-1].extend(grp)
             else:
-                baseline_chunks.append(grp)
+                baseline_chunks.append(list(grp))
     return baseline_chunks
 
 
-- 
2.43.0


From 30778068ffeccb367a37247e4feb7ca83fd4165c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:02 +0000
Subject: [PATCH 23/47] fix: keep the integrations of single-integration
 templates in time_chunk_from_baseline_chunks with time_bounds

---
 hera_cal/vis_clean.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index 1c4981c..af441cc 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -2078,7 +2078,11 @@ def time_chunk_from_baseline_chunks(time_chunk_template, baseline_chunk_files, o
         # now that we've updated everything, we write the output file.
         hd_time_chunk.write_uvh5(outfilename, clobber=clobber)
     else:
-        dt_time_chunk = np.median(np.diff(hd_time_chunk.times)) / 2.
+        if len(hd_time_chunk.times) > 1:
+            dt_time_chunk = np.median(np.diff(hd_time_chunk.times)) / 2.
+        else:
+            # no spacing to measure in a single-integration file, so use its integration time (s -> days).
+            dt_time_chunk = np.median(hd_time_chunk.integration_time) / (24. * 3600.) / 2.
         tmax = hd_time_chunk.times.max() + dt_time_chunk
 
         tmin = hd_time_chunk.times.min() - dt_time_chunk
-- 
2.43.0


From b00f24bf61f5f720dd6797e2a1b1f5980b6973fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:28 +0000
Subject: [PATCH 24/47] fix: put integrations centered on a file boundary into
 exactly one file in time_chunk_from_baseline_chunks with time_bounds

---
 hera_cal/vis_clean.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index af441cc..5cdb29b 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -2091,7 +2091,10 @@ def time_chunk_from_baseline_chunks(time_chunk_template, baseline_chunk_files, o
         # we only compare centers of baseline files to time limits of time-file.
         # this is to prevent integrations that straddle file boundaries from being dropped.
         # when we perform reconstitution.
-        t_select = (hd_baseline_chunk.times >= tmin) & (hd_baseline_chunk.times < tmax)
+        # an integration centered on the boundary between two files must go to exactly one of them, so both edges
+        # are moved by much more than the rounding of the times, but by much less than the integration time.
+        tol = 1e-2 * dt_time_chunk
+        t_select = (hd_baseline_chunk.times >= tmin - tol) & (hd_baseline_chunk.times < tmax - tol)
         if np.any(t_select):
             hd_combined.read(times=hd_baseline_chunk.times[t_select], axis='blt')
             hd_combined.write_uvh5(outfilename, clobber=clobber)
-- 
2.43.0


From 2817c4b1a436caf4c1b035f7165623fd16e0d7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:33 +0000
Subject: [PATCH 25/47] fix: find the integration of single-integration
 baseline chunks in time_chunk_from_baseline_chunks

---
 hera_cal/vis_clean.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index 5cdb29b..8d72a93 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -2068,7 +2068,10 @@ def time_chunk_from_baseline_chunks(time_chunk_template, baseline_chunk_files, o
             # find times that are close.
             tload = []
             # use tolerance in times that is set by the time resolution of the dataset.
-            atol = np.median(np.diff(hd_baseline_chunk.times)) / 10.
+            if len(hd_baseline_chunk.times) > 1:
+                atol = np.median(np.diff(hd_baseline_chunk.times)) / 10.
+            else:
+                atol = np.median(hd_baseline_chunk.integration_time) / (24. * 3600.) / 10.
             all_times = np.unique(hd_baseline_chunk.times)
             for t in all_times:
                 if np.any(np.isclose(t, hd_time_chunk.times, atol=atol, rtol=0)):
-- 
2.43.0


From 7664ddd72118e36d6409b05af7c166ab76f73f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:26 +0000
Subject: [PATCH 26/47] fix: read back LST-binning configurations without
 jd_regex or with ignored antennas

---
 hera_cal/lst_stack/config.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hera_cal/lst_stack/config.py b/hera_cal/lst_stack/config.py
index 83a0096..3a02005 100644
--- a/hera_cal/lst_stack/config.py
+++ b/hera_cal/lst_stack/config.py
@@ -645,7 +645,7 @@ class LSTBinConfigurator:
                 if v:
                     group.create_dataset(k, data=v)
             else:
-                group.attrs[k] = v
+                group.attrs[k] = h5py.Empty("f") if v is None else v
 
     @classmethod
     def _read(cls, group: h5py.Group):
@@ -654,7 +654,10 @@ class LSTBinConfigurator:
         Note that this method is not meant to be called by users. The File associated
         with the Group must be open and readable.
         """
-        dct = dict(group.attrs.items())
+        dct = {
+            k: None if isinstance(v, h5py.Empty) else v for k, v in group.attrs.items()
+        }
+        dct["ignore_ants"] = tuple(int(ant) for ant in dct.get("ignore_ants", ()))
         n_nights = len([k for k in group.keys() if k.startswith("night_")])
         dct["data_files"] = []
         for night in range(n_nights):
-- 
2.43.0


From 7fc53eaf7b6559c0abec4617ba57951310e89c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:26 +0000
Subject: [PATCH 27/47] fix: keep the last output file of an LST-binning
 configuration whose grid is not a multiple of nlsts_per_file

---
 hera_cal/lst_stack/config.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hera_cal/lst_stack/config.py b/hera_cal/lst_stack/config.py
index 3a02005..517b8bb 100644
--- a/hera_cal/lst_stack/config.py
+++ b/hera_cal/lst_stack/config.py
@@ -52,7 +52,7 @@ from hera_qm.metrics_io import read_a_priori_ant_flags
 from .. import utils
 from typing import Any, Sequence
 import attrs
-from functools import cached_property
+from functools import cached_property, partial
 from astropy import units
 import h5py
 from .io import apply_filename_rules, filter_required_files_by_times
@@ -588,7 +588,7 @@ class LSTBinConfigurator:
 
         # Get the best lst_branch_cut by finding the largest gap in LSTs and starting
         # AFTER it
-        lst_branch_cut = float(utils.get_best_lst_branch_cut(np.concatenate(lst_grid)))
+        lst_branch_cut = float(utils.get_best_lst_branch_cut(lst_grid[np.isfinite(lst_grid)]))
 
         # Turn matched_files back into a list of lists of strings.
         matched_files = [
@@ -827,7 +827,7 @@ class _LSTConfigBase(ABC):
     users.
     """
     config: LSTBinConfigurator = attrs.field()
-    lst_grid: np.ndarray = attrs.field(converter=np.asarray, eq=attrs.cmp_using(eq=np.allclose))
+    lst_grid: np.ndarray = attrs.field(converter=np.asarray, eq=attrs.cmp_using(eq=partial(np.allclose, equal_nan=True)))
     matched_files: list[list[list[Path]]] = attrs.field(converter=_nested_list_of(Path))
     autopairs: list[tuple[int, int]] = attrs.field(converter=_to_antpairs)
     antpairs: list[tuple[int, int]] = attrs.field(converter=_to_antpairs)
@@ -1081,8 +1081,10 @@ class LSTConfig(_LSTConfigBase):
         required for a single LST bin or output file (which might contain a few
         LST bins).
         """
+        # The last output file might be padded with NaNs.
         lst_grid = self.lst_grid[outfile]
-        grid_edges = self.lst_grid_edges[outfile]
+        lst_grid = lst_grid[np.isfinite(lst_grid)]
+        grid_edges = np.append(lst_grid - self.dlst / 2, lst_grid[-1] + self.dlst / 2)
 
         if lstindex is not None:
             lst_grid = lst_grid[[lstindex]]
-- 
2.43.0


From d1caf4fece52c35d1aaec839188a138ed186688b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:26 +0000
Subject: [PATCH 28/47] fix: match files to an output file that covers the full
 LST circle

---
 hera_cal/lst_stack/io.py | 3 ++-
 hera_cal/utils.py        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hera_cal/lst_stack/io.py b/hera_cal/lst_stack/io.py
index 27cb126..458bafb 100644
--- a/hera_cal/lst_stack/io.py
+++ b/hera_cal/lst_stack/io.py
@@ -107,7 +107,8 @@ def filter_required_files_by_times(
     lstmin, lstmax = lst_range
     lstmin %= 2 * np.pi
     lstmax %= 2 * np.pi
-    if lstmin > lstmax:
+    # If the range is the full circle, both ends are the same to within rounding error.
+    if lstmin > lstmax or np.isclose(lstmin, lstmax, rtol=0, atol=1e-10):
         lstmax += 2 * np.pi
 
     have_calfiles = cal_files is not None
diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index 7e20068..cb4a205 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1698,7 +1698,8 @@ def match_files_to_lst_bins(
         fl_in_range = False
         for lstbin, (jdstart, jdend) in enumerate(zip(jd_edges[:-1], jd_edges[1:])):
             # Go through each lst bin
-            cmp = operator.and_ if (jdstart < jdend) else operator.or_
+            full_circle = np.isclose(lst_edges[lstbin + 1] - lst_edges[lstbin], 2 * np.pi, atol=1e-10)
+            cmp = operator.and_ if (jdstart < jdend and not full_circle) else operator.or_
             if cmp(jdstart - (ntimes_per_file - 1) * tint - atol <= thistime, thistime < jdend + atol):
                 lstbin_files[lstbin].append(fl)
             fl_in_range = True
-- 
2.43.0


From eb0b9391f61512d504bd6dd9ea7389b78dd8a827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:26 +0000
Subject: [PATCH 29/47] fix: include files whose rounded name puts them just
 outside of an LST bin, and allow an empty jd_regex

---
 hera_cal/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index cb4a205..3680ff9 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1604,8 +1604,11 @@ def match_files_to_lst_bins(
         # Older python
         cache = functools.lru_cache(maxsize=None)
 
-    if jd_regex is not None:
+    if jd_regex:
         jd_regex = re.compile(jd_regex)
+        # The times in the file names are rounded (usually to five decimals), so that we
+        # need at least this much of a buffer to include all files with times in range.
+        atol = max(atol, 1e-5)
 
         @cache
         def get_first_time(path: Path) -> float:
-- 
2.43.0


From b3bcf24630f90b0fc2a3db0a4360138e77ec43c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:55 +0000
Subject: [PATCH 30/47] fix: match antennas and polarizations when combining or
 multiplying gain files

Gain files that list the same antennas in different orders were multiplied
antenna by position, and a single-antenna file was broadcast over all others.
Flagged zero or non-finite gains became NaN instead of unity in combine_calfits.
---
 hera_cal/abscal.py |  1 +
 hera_cal/utils.py  | 23 ++++++++++++++++++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index bbac91b..aa682a9 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -4345,6 +4345,7 @@ def multiply_gains(gain_file_1, gain_file_2, output_file, clobber=False, divide_
     hc1.read()
     hc2 = io.HERACal(gain_file_2)
     hc2.read()
+    utils.match_cal_axes(hc2, hc1)
     if divide_gains:
         hc1.gain_array /= hc2.gain_array
     else:
diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index 3680ff9..5f1481e 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -735,6 +735,23 @@ def get_sun_alt(jds, latitude=-30.721526120689507, longitude=21.428303826863015)
         return alts[0]
 
 
+def match_cal_axes(uvc, reference):
+    """
+    Reorder (in place) the antennas and polarizations of a gain solution to those of another.
+
+    Parameters:
+    -----------
+    uvc : UVCal object to reorder
+
+    reference : UVCal object with the order to match. ValueError is raised if it does not
+        have the same antennas and polarizations as uvc.
+    """
+    if set(uvc.ant_array) != set(reference.ant_array) or set(uvc.jones_array) != set(reference.jones_array):
+        raise ValueError("Gain solutions do not have the same antennas and polarizations.")
+    uvc.reorder_antennas(np.array([list(uvc.ant_array).index(ant) for ant in reference.ant_array]))
+    uvc.reorder_jones(np.array([list(uvc.jones_array).index(jnum) for jnum in reference.jones_array]))
+
+
 def combine_calfits(files, fname, outdir=None, overwrite=False, broadcast_flags=True, verbose=True):
     """
     multiply together multiple calfits gain solutions (overlapping in time and frequency)
@@ -768,15 +785,15 @@ def combine_calfits(files, fname, outdir=None, overwrite=False, broadcast_flags=
             f1 = copy.copy(f)
 
             # set flagged data to unity
-            uvc.gain_array[uvc.flag_array] /= uvc.gain_array[uvc.flag_array]
+            uvc.gain_array[uvc.flag_array] = 1.0
 
         else:
             uvc2 = UVCal()
             uvc2.read_calfits(f)
+            match_cal_axes(uvc2, uvc)
 
             # set flagged data to unity
-            gain_array = uvc2.gain_array
-            gain_array[uvc2.flag_array] /= gain_array[uvc2.flag_array]
+            uvc2.gain_array[uvc2.flag_array] = 1.0
 
             # multiply gain solutions in
             uvc.gain_array *= uvc2.gain_array
-- 
2.43.0


From 48e800c20f93c21ac83e516f96b38db98adeea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:56 +0000
Subject: [PATCH 31/47] fix: write the given visibility units and integration
 time in write_vis

---
 hera_cal/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index eb73e6f..965ab19 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -2295,6 +2295,8 @@ def write_vis(fname, data, lst_array, freq_array, antpos, time_array=None, flags
         do_blt_outer=True,
         empty=True,
         history=history,
+        vis_units=vis_units,
+        integration_time=integration_time,
         **tel_params,
     )
     uvd.telescope.set_feeds_from_x_orientation(x_orientation, feeds=['x', 'y'])  # assumes linear polarization
-- 
2.43.0


From b7172f5c417f87d9fc62966a504dd6ad68b557fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:22 +0000
Subject: [PATCH 32/47] fix: integration time of redundantly averaged groups
 with a single baseline

---
 hera_cal/utils.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index 5f1481e..71360d8 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1426,7 +1426,7 @@ def red_average(data, reds=None, bl_tol=1.0, inplace=False,
                 f = np.asarray([(~flags[bl + (pol,)]).astype(float) for bl in blg])
                 n = np.asarray([nsamples[bl + (pol,)] for bl in blg])
                 # DataContainer can't track integration time, so no tint here
-                tint = np.array([1.0])
+                tint = np.ones((1, 1, 1))
                 w = np.asarray([wgts[bl + (pol,)] for bl in blg])
 
             else:
@@ -1446,10 +1446,7 @@ def red_average(data, reds=None, bl_tol=1.0, inplace=False,
             flagged_f = np.all(f == 0, axis=0)
             davg[flagged_f] = 1.0
             fmax = np.max(f, axis=2)  # collapse along freq: marks any fully flagged integrations
-            if tint.squeeze().ndim == 1:  # tint.squeeze() can be one-dimensional if we have one time sample in our data.
-                iavg = np.sum(tint.squeeze()[:, None] * fmax, axis=0) / np.sum(fmax, axis=0).clip(1e-10, np.inf)
-            else:
-                iavg = np.sum(tint.squeeze() * fmax, axis=0) / np.sum(fmax, axis=0).clip(1e-10, np.inf)
+            iavg = np.sum(tint[:, :, 0] * fmax, axis=0) / np.sum(fmax, axis=0).clip(1e-10, np.inf)
 
             binary_wgts = (~np.isclose(w, 0)).astype(float)  # binary weights.
             navg = np.sum(n * binary_wgts, axis=0)
-- 
2.43.0


From 66899125c889de2db908396c3e35f00c633cb03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:02 +0000
Subject: [PATCH 33/47] fix: apply several external flag files, as given on the
 command line, in VisClean.apply_flags

---
 hera_cal/vis_clean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index 8d72a93..79dfd87 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -617,7 +617,7 @@ class VisClean:
 
         # apply flags
         if filetype == 'uvflag':
-            if isinstance(external_flags, str):
+            if isinstance(external_flags, (str, list, tuple)):
                 external_flags = UVFlag(external_flags)
             uvutils.apply_uvflag(self.hd, external_flags, unflag_first=overwrite_flags, inplace=True)
         elif filetype == 'yaml':
-- 
2.43.0


From 462df5b295b0b8b830af6a63c769024706d97b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:41 +0000
Subject: [PATCH 34/47] fix: write only the selected polarizations when
 filtering a few baselines at a time

---
 hera_cal/delay_filter.py | 2 ++
 hera_cal/frf.py          | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/hera_cal/delay_filter.py b/hera_cal/delay_filter.py
index f567920..f2b65ae 100644
--- a/hera_cal/delay_filter.py
+++ b/hera_cal/delay_filter.py
@@ -227,6 +227,8 @@ def load_delay_filter_and_write(datafile_list, baseline_list=None, calfile_list=
                     'freq_array': df.hd.freq_array,
                     'channel_width': df.hd.channel_width,
                     'flex_spw_id_array': df.hd.flex_spw_id_array,
+                    'Npols': df.hd.Npols,
+                    'polarization_array': df.hd.polarization_array,
                 }
             )
             df.hd.data_array = None  # this forces a reload in the next loop
diff --git a/hera_cal/frf.py b/hera_cal/frf.py
index 140bbdb..a0bf624 100644
--- a/hera_cal/frf.py
+++ b/hera_cal/frf.py
@@ -2051,7 +2051,9 @@ def load_tophat_frfilter_and_write(
                 'Nfreqs': frfil.hd.Nfreqs,
                 'freq_array': frfil.hd.freq_array,
                 'channel_width': frfil.hd.channel_width,
-                'flex_spw_id_array': frfil.hd.flex_spw_id_array
+                'flex_spw_id_array': frfil.hd.flex_spw_id_array,
+                'Npols': frfil.hd.Npols,
+                'polarization_array': frfil.hd.polarization_array,
             },
         )
         frfil.hd.data_array = None  # this forces a reload in the next loop
-- 
2.43.0


From 3fa08e2a0e32764520d12b2b2e7c9559dcb01fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:41 +0000
Subject: [PATCH 35/47] fix: store cross-polarized redundant averages of
 reversed baselines under their own polarization

---
 hera_cal/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index 71360d8..520b49d 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1466,7 +1466,9 @@ def red_average(data, reds=None, bl_tol=1.0, inplace=False,
                 blinds = data.antpair2ind(blk)
                 polind = pols.index(pol)
                 if blinds is None or (hasattr(blinds, "__len__") and len(blinds) == 0):
+                    # the averaged baseline is stored as its conjugate, under the conjugate polarization
                     blinds = data.antpair2ind(reverse_bl(blk))
+                    polind = pols.index(conj_pol(pol))
                     davg = np.conj(davg)
                 data.data_array[blinds, :, polind] = davg
                 data.flag_array[blinds, :, polind] = favg
-- 
2.43.0


From b252048343fcab0ed8b58aac1ebcc0c87face90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:14 +0000
Subject: [PATCH 36/47] fix: average every polarization with the original
 integration times in red_average

---
 hera_cal/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index 520b49d..f7e75bc 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1416,6 +1416,9 @@ def red_average(data, reds=None, bl_tol=1.0, inplace=False,
     # iterate over redundant groups and polarizations
     if red_bl_keys is None:
         red_bl_keys = [blg[0] for blg in reds]
+    if not fed_container:
+        # data.integration_time is updated below, but each polarization is averaged with the original ones
+        integration_time = np.array(data.integration_time)
     for pol in pols:
         for blg, blk in zip(reds, red_bl_keys):
             # get data and weighting for this pol-blgroup
@@ -1436,7 +1439,7 @@ def red_average(data, reds=None, bl_tol=1.0, inplace=False,
                 tint = []
                 for bl in blg:
                     blinds = data.antpair2ind(bl + (pol,), ordered=False)
-                    tint.append(data.integration_time[blinds])
+                    tint.append(integration_time[blinds])
                 tint = np.asarray(tint)[:, :, None]
                 w = np.asarray([wgts[bl + (pol,)] for bl in blg]) * tint
             # take the weighted average
@@ -1446,7 +1449,8 @@ def red_average(data, reds=None, bl_tol=1.0, inplace=False,
             flagged_f = np.all(f == 0, axis=0)
             davg[flagged_f] = 1.0
             fmax = np.max(f, axis=2)  # collapse along freq: marks any fully flagged integrations
-            iavg = np.sum(tint[:, :, 0] * fmax, axis=0) / np.sum(fmax, axis=0).clip(1e-10, np.inf)
+            fsum = np.sum(fmax, axis=0)
+            iavg = np.where(fsum > 0, np.sum(tint[:, :, 0] * fmax, axis=0) / fsum.clip(1e-10, np.inf), np.mean(tint[:, :, 0], axis=0))
 
             binary_wgts = (~np.isclose(w, 0)).astype(float)  # binary weights.
             navg = np.sum(n * binary_wgts, axis=0)
-- 
2.43.0


From 320d2e9cc5b18b7285f785647dc906d4932f6548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:13 +0000
Subject: [PATCH 37/47] fix: average LSTs across the branch cut when equalizing
 interleaved times

---
 hera_cal/frf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hera_cal/frf.py b/hera_cal/frf.py
index a0bf624..0e4d99d 100644
--- a/hera_cal/frf.py
+++ b/hera_cal/frf.py
@@ -1571,7 +1571,9 @@ def time_avg_data_and_write(input_data_list, output_data, t_avg, baseline_list=N
 
             if equalize_interleave_times:
                 avg_times = np.mean([tset[:ntimes] for tset in timesets], axis=0)
-                avg_lsts = np.mean([getattr(fr, f'avg_lsts_interleave_{inum}')[:ntimes] for inum in range(ninterleave)], axis=0)
+                # unwrap, since the times averaged together may be on both sides of the branch cut in LST
+                avg_lsts = np.unwrap([getattr(fr, f'avg_lsts_interleave_{inum}')[:ntimes] for inum in range(ninterleave)], axis=0)
+                avg_lsts = np.mean(avg_lsts, axis=0) % (2 * np.pi)
             for inum in range(ninterleave):
                 # relable keys to antpolpairs in avg sets
                 avg_data = getattr(fr, f'avg_data_interleave_{inum}')
-- 
2.43.0


From 0b500071e97ad487b7a31835b26e85d985e45253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:23 +0000
Subject: [PATCH 38/47] fix: keep the visibility solutions of groups led by an
 excluded antenna in expand_omni_vis

---
 hera_cal/redcal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index 59a569c..3e1a029 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -1692,6 +1692,7 @@ def expand_omni_vis(sol, expanded_reds, data, nsamples=None, chisq=None, chisq_p
 
     # update keys
     sol.vis.build_red_keys(expanded_reds)
+    sol.reds = sol.vis.reds
 
 
 def expand_omni_gains(sol, expanded_reds, data, nsamples=None, chisq_per_ant=None):
-- 
2.43.0


From c4aac4f6112c861352e7006fd23b267086bc688c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:23 +0000
Subject: [PATCH 39/47] fix: skip and flag integrations with the Sun up between
 ones without in redcal_iteration

---
 hera_cal/redcal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index 3e1a029..4598aa9 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -1883,9 +1883,10 @@ def redcal_iteration(hd, nInt_to_load=None, pol_mode='2pol', bl_error_tol=1.0, e
         # figure out time slices to load
         if nInt_to_load is None:
             nInt_to_load = nTimes
-        start_ind = np.min(np.arange(nTimes)[~solar_flagged])
-        stop_ind = np.max(np.arange(nTimes)[~solar_flagged])
-        tSlices = [slice(start_ind + i, min(start_ind + i + nInt_to_load, stop_ind + 1)) for i in range(0, stop_ind + 1 - start_ind, nInt_to_load)]
+        good_inds = np.arange(nTimes)[~solar_flagged]
+        tSlices = []
+        for run in np.split(good_inds, np.where(np.diff(good_inds) > 1)[0] + 1):  # contiguous unflagged integrations
+            tSlices += [slice(i, min(i + nInt_to_load, run[-1] + 1)) for i in range(run[0], run[-1] + 1, nInt_to_load)]
 
         for tSlice in tSlices:
             # get DataContainers, performing i/o if necessary
-- 
2.43.0


From f13bfee8ad5b9cc26f889ce09b980d4685a2687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:24 +0000
Subject: [PATCH 40/47] fix: weight data by the file's integration time when
 redcal_iteration loads one integration at a time

---
 hera_cal/redcal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index 4598aa9..28839ec 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -1900,6 +1900,9 @@ def redcal_iteration(hd, nInt_to_load=None, pol_mode='2pol', bl_error_tol=1.0, e
             else:  # perform partial i/o
                 data, _, nsamples = hd.read(time_range=(hd.times[tSlice][0], hd.times[tSlice][-1]), frequencies=hd.freqs[fSlice], polarizations=pols)
 
+            # integration times can't be inferred from a single integration, so keep those of the whole file
+            data.times_by_bl = hd.times_by_bl
+
             # run redundant calibration
             meta, sol = redundantly_calibrate(data, reds, freqs=hd.freqs[fSlice], times_by_bl=hd.times_by_bl,
                                               run_logcal=True, run_omnical=True,
-- 
2.43.0


From f80089b264f70b35382a227401e0319d48e6e2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:46 +0000
Subject: [PATCH 41/47] fix: order the polarizations of redundant groups the
 same way in every interpreter in redcal_iteration

---
 hera_cal/redcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index 28839ec..f4eb0ad 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -1852,7 +1852,7 @@ def redcal_iteration(hd, nInt_to_load=None, pol_mode='2pol', bl_error_tol=1.0, e
 
     # get full set of reds and filtered reds to calibrate
     all_reds = get_reds({ant: hd.antpos[ant] for ant in ant_nums}, bl_error_tol=bl_error_tol,
-                        pol_mode=pol_mode, pols=set([pol for pols in pol_load_list for pol in pols]))
+                        pol_mode=pol_mode, pols=[pol for pols in pol_load_list for pol in pols])
     filtered_reds = filter_reds(all_reds, ex_ants=ex_ants, antpos=hd.antpos, **filter_reds_kwargs)
 
     # initialize HERAData and HERACal to contain the full set of data and metadata
-- 
2.43.0


From 6a91b699451c502c93bf697ab53aa93afef7bd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:22 +0000
Subject: [PATCH 42/47] fix: key visibilities solved through excluded antennas
 by the first baseline of their group in redcal_iteration

---
 hera_cal/redcal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index f4eb0ad..4263aba 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -1930,6 +1930,7 @@ def redcal_iteration(hd, nInt_to_load=None, pol_mode='2pol', bl_error_tol=1.0, e
             # try one more time to expand visibilities, keeping new ones flagged, but
             # don't update chisq or chisq_per_ant
             expand_omni_vis(sol, all_reds_this_pol, data, nsamples)
+            sol.vis = RedDataContainer({red[0]: sol.vis[red[0]] for red in all_reds_this_pol if red[0] in sol.vis}, reds=all_reds_this_pol)
             sol.make_sol_finite()
 
             # update various objects containing information about the full file
-- 
2.43.0


From e394df93a4601f8becfc129757597b40fca7b427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:43 +0000
Subject: [PATCH 43/47] fix: import warnings in smooth_cal_run.py so that
 --axis none writes files

---
 scripts/smooth_cal_run.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/smooth_cal_run.py b/scripts/smooth_cal_run.py
index fc7d14a..3bb2f8d 100755
--- a/scripts/smooth_cal_run.py
+++ b/scripts/smooth_cal_run.py
@@ -12,6 +12,7 @@ See help for a more detailed explanation of the parameters.
 
 from hera_cal.smooth_cal import CalibrationSmoother, smooth_cal_argparser
 import sys
+import warnings
 from hera_cal._cli_tools import parse_args, run_with_profiling
 
 a = smooth_cal_argparser()
-- 
2.43.0


From 9f69b96a15a7896044ef81b3887b169884c982a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:43 +0000
Subject: [PATCH 44/47] fix: write only the antennas of each file in
 write_smoothed_cal

---
 hera_cal/smooth_cal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hera_cal/smooth_cal.py b/hera_cal/smooth_cal.py
index 8c05558..c71b1f9 100644
--- a/hera_cal/smooth_cal.py
+++ b/hera_cal/smooth_cal.py
@@ -1296,8 +1296,8 @@ class CalibrationSmoother():
             gains, flags, _, _ = hc.read()
             if hasattr(self, 'refant'):
                 rephase_to_refant(gains, self.refant)
-            out_gains = {ant: self.gain_grids[ant][self.time_indices[cal], :] for ant in self.ants}
-            out_flags = {ant: self.flag_grids[ant][self.time_indices[cal], :] for ant in self.ants}
+            out_gains = {ant: self.gain_grids[ant][self.time_indices[cal], :] for ant in gains}
+            out_flags = {ant: self.flag_grids[ant][self.time_indices[cal], :] for ant in gains}
             rel_diff, avg_rel_diff = utils.gain_relative_difference(gains, out_gains, out_flags)
             hc.update(gains=out_gains, flags=out_flags, quals=rel_diff, total_qual=avg_rel_diff)
             hc.history += utils.history_string(add_to_history)
-- 
2.43.0


From 225156100667f3aa6fd25067caaada9a85dc33ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:43 +0000
Subject: [PATCH 45/47] fix: use ant_threshold, not time_threshold, for
 thresholding antennas in CalibrationSmoother

---
 hera_cal/smooth_cal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/smooth_cal.py b/hera_cal/smooth_cal.py
index c71b1f9..90848de 100644
--- a/hera_cal/smooth_cal.py
+++ b/hera_cal/smooth_cal.py
@@ -1012,7 +1012,7 @@ class CalibrationSmoother():
         # perform data quality checks and flag thresholding
         self.check_consistency()
         flag_threshold_and_broadcast(self.flag_grids, freq_threshold=freq_threshold,
-                                     time_threshold=time_threshold, ant_threshold=time_threshold)
+                                     time_threshold=time_threshold, ant_threshold=ant_threshold)
 
         # build blacklists
         self.blacklist_wgt = blacklist_wgt
-- 
2.43.0


From f9adbd37a41d40bd09c3532156833a43bc176fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:00 +0000
Subject: [PATCH 46/47] fix: pass a number as eigenval_cutoff to the 2D DPSS
 filter in smooth_cal_run.py

---
 hera_cal/smooth_cal.py    | 2 +-
 scripts/smooth_cal_run.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hera_cal/smooth_cal.py b/hera_cal/smooth_cal.py
index 90848de..e451485 100644
--- a/hera_cal/smooth_cal.py
+++ b/hera_cal/smooth_cal.py
@@ -1376,7 +1376,7 @@ def smooth_cal_argparser():
     flt_opts.add_argument("--alpha", type=float, default=.3, help='alpha parameter to use for Tukey window (ignored if window is not Tukey)')
     flt_opts.add_argument("--method", type=str, default='CLEAN', help='Algorithm used to smooth calibration solutions. Default is "CLEAN". "DPSS" uses \
                           discrete prolate spheroidal sequences to smooth calibration solutions.')
-    flt_opts.add_argument("--eigenval_cutoff", type=str, default=1e-9, help="sinc_matrix eigenvalue cutoff to use for included dpss modes. \
+    flt_opts.add_argument("--eigenval_cutoff", type=float, default=1e-9, help="sinc_matrix eigenvalue cutoff to use for included dpss modes. \
                           Only used when the filtering method is 'DPSS'")
     flt_opts.add_argument("--fit_method", type=str, default="pinv", help="Linear least-squares method used for fitting 2D DPSS modes. \
                           Only used when the filtering method is 'DPSS'")
diff --git a/scripts/smooth_cal_run.py b/scripts/smooth_cal_run.py
index 3bb2f8d..97ec9b3 100755
--- a/scripts/smooth_cal_run.py
+++ b/scripts/smooth_cal_run.py
@@ -23,8 +23,8 @@ filter_kwargs = {}
 if mode != 'clean':
     filter_kwargs['skip_flagged_edges'] = not (a.dont_skip_flagged_edges)
     filter_kwargs['fit_method'] = a.fit_method
-    if a.axis == 'time':
-        filter_kwargs['eigenval_cutoff'] = [a.eigenval_cutoff]
+    if a.axis == 'both':
+        filter_kwargs['eigenval_cutoff'] = a.eigenval_cutoff
     else:
         filter_kwargs['eigenval_cutoff'] = [a.eigenval_cutoff]
 else:
-- 
2.43.0


From a353be205740b4f82f7cb2552a99617dc6716aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:54 +0000
Subject: [PATCH 47/47] fix: pass only arguments of the 1D filter when
 smoothing along frequency in smooth_cal_run.py

---
 scripts/smooth_cal_run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/smooth_cal_run.py b/scripts/smooth_cal_run.py
index 97ec9b3..e90c4bb 100755
--- a/scripts/smooth_cal_run.py
+++ b/scripts/smooth_cal_run.py
@@ -22,15 +22,15 @@ mode = a.method
 filter_kwargs = {}
 if mode != 'clean':
     filter_kwargs['skip_flagged_edges'] = not (a.dont_skip_flagged_edges)
-    filter_kwargs['fit_method'] = a.fit_method
     if a.axis == 'both':
+        filter_kwargs['fit_method'] = a.fit_method
         filter_kwargs['eigenval_cutoff'] = a.eigenval_cutoff
     else:
         filter_kwargs['eigenval_cutoff'] = [a.eigenval_cutoff]
 else:
     if a.window == 'tukey':  # set window kwargs
         filter_kwargs['alpha'] = a.alpha
-    filter_kwargs['max_iter'] = a.max_iter
+    filter_kwargs['maxiter'] = a.maxiter
 
 
 def run():
-- 
2.43.0

