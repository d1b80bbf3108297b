From cc51a87ced891f806e5eeb813a6adfc8d2270888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:37 +0000
Subject: [PATCH 001/199] fix: LJHFile.column_number reports the header's
 column number

The header value was stored only under the name col_number, so column_number
(which the rest of the code uses, e.g. for OFF headers) was always 0.
---
 mass/core/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index e9f213d..8308a36 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -242,7 +242,8 @@ class LJHFile(MicrocalFile):
             self.row_number = int(header_dict[row_number_k[0]])
         col_number_k = [k for k in header_dict.keys() if k.startswith(b"Column number")]
         if len(col_number_k) > 0:
-            self.col_number = int(header_dict[col_number_k[0]])
+            self.column_number = int(header_dict[col_number_k[0]])
+            self.col_number = self.column_number
         self.client = header_dict.get(b"Software Version", b"UNKNOWN")
         self.number_of_columns = int(header_dict.get(b"Number of columns", 1))
         self.number_of_rows = int(header_dict.get(b"Number of rows", 1))
-- 
2.43.0


From 4d0b10bc06cb434b0a06de7e3d54916292d9d774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 002/199] fix: make_ljh_header preserves nPresamples and the
 exact timebase

The reader adds 3 presamples to any file not written by DASTARD, so every copy
of an LJH file gained 3 presamples, and the timebase was rounded to 5 digits.
---
 mass/core/files.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index 8308a36..78a8c1b 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -449,9 +449,11 @@ def make_ljh_header(header_dict):
     """
     version_str = header_dict["version_str"]
     asctime = header_dict["asctime"]
-    timebase = header_dict["timebase"]
+    timebase = float(header_dict["timebase"])
     nSamples = header_dict["nSamples"]
-    nPresamples = header_dict["nPresamples"]
+    # LJHFile adds 3 to the nominal "Presamples" value of any file not written by DASTARD (see
+    # LJHFile._parse_header). This header is one of those, so subtract 3 to preserve nPresamples.
+    nPresamples = header_dict["nPresamples"] - 3
     header_lines = [
         "#LJH Memorial File Format",
         f"Save File Format Version: {version_str}",
@@ -470,7 +472,7 @@ def make_ljh_header(header_dict):
         "Digitizer: 1",
         "Master: Yes",
         "Bits: 16",
-        f"Timebase: {timebase:.4e}",
+        f"Timebase: {timebase!r}",
         "Number of samples per point: 1",
         f"Presamples: {nPresamples}",
         f"Total Samples: {nSamples}",
-- 
2.43.0


From f3c44c44cd7db8cdcdb720e4f50d52c3c7686661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 003/199] fix: ljh_copy_traces refuses to overwrite its own
 source file

It truncated the file it was about to read, destroying the data (and crashing
with a bus error on the memory map).
---
 mass/core/ljh_modify.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mass/core/ljh_modify.py b/mass/core/ljh_modify.py
index a57f88e..9829862 100644
--- a/mass/core/ljh_modify.py
+++ b/mass/core/ljh_modify.py
@@ -125,8 +125,12 @@ def ljh_copy_traces(src_name, dest_name, pulses, overwrite=False):
             then the copy fails (default False).
     """
 
-    if os.path.exists(dest_name) and not overwrite:
-        raise OSError(f"The ljhfile '{dest_name}' exists and overwrite was not set to True")
+    if os.path.exists(dest_name):
+        if os.path.samefile(src_name, dest_name):
+            raise ValueError(f"Source '{src_name}' and destination '{dest_name}' "
+                             "are the same file, which is not allowed.")
+        if not overwrite:
+            raise OSError(f"The ljhfile '{dest_name}' exists and overwrite was not set to True")
 
     src = LJHFile.open(src_name)
 
-- 
2.43.0


From b43e3f110e6a3d463891eeb120b9523e5867f6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 004/199] fix: ljh_truncate copies the header verbatim and
 allows n_pulses > nPulses

The header was rebuilt from parsed entries, losing every line without a colon,
and asking for more pulses than exist raised IndexError.
---
 mass/core/ljh_modify.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mass/core/ljh_modify.py b/mass/core/ljh_modify.py
index 9829862..2ed0f0d 100644
--- a/mass/core/ljh_modify.py
+++ b/mass/core/ljh_modify.py
@@ -203,14 +203,14 @@ def ljh_truncate(input_filename, output_filename, n_pulses=None, timestamp=None,
         raise Exception(f"Don't know how to truncate this LJH version [{infile.version_str}]")
 
     with open(output_filename, "wb") as outfile:
-        # write the header as a single string.
-        for (k, v) in infile.header_dict.items():
-            outfile.write(k + b": " + v + b"\r\n")
-        outfile.write(b"#End of Header\r\n")
+        # Copy the header unchanged.
+        with open(input_filename, "rb") as fp:
+            outfile.write(fp.read(infile.header_size))
 
         # Write pulses. Stop reading segments from the original file as soon as possible.
         if n_pulses is None:
             n_pulses = infile.nPulses
+        n_pulses = min(n_pulses, infile.nPulses)
         for i in range(n_pulses):
             if (timestamp is not None and infile.datatimes_float[i] > timestamp):
                 break
-- 
2.43.0


From 76bfaddc2fbc8d7376ce9278b8590861b3a53175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 005/199] fix: ljh_append_traces cannot corrupt its destination

Appending (always in the LJH 2.2 layout) onto an LJH 2.1 file, onto a file with
another record length, or after an incomplete final record made all appended
records unreadable. Refuse the first two and drop the incomplete record.
---
 mass/core/ljh_modify.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mass/core/ljh_modify.py b/mass/core/ljh_modify.py
index 2ed0f0d..70cf88b 100644
--- a/mass/core/ljh_modify.py
+++ b/mass/core/ljh_modify.py
@@ -160,7 +160,19 @@ def ljh_append_traces(src_name, dest_name, pulses=None):
     src = LJHFile.open(src_name)
     if pulses is None:
         pulses = range(src.nPulses)
-    with open(dest_name, "ab") as dest_fp:
+
+    dest = LJHFile.open(dest_name)
+    if Version(dest.version_str.decode()) < Version("2.2.0"):
+        raise ValueError(f"Cannot append to '{dest_name}', which has LJH version {dest.version_str.decode()} < 2.2.0")
+    if dest.nSamples != src.nSamples:
+        raise ValueError(f"Cannot append records of {src.nSamples} samples to '{dest_name}', "
+                         f"which has {dest.nSamples} samples per record")
+    # If the destination ends with an incomplete record, overwrite it.
+    end_of_data = dest.header_size + dest.nPulses * dest.pulse_size_bytes
+
+    with open(dest_name, "r+b") as dest_fp:
+        dest_fp.truncate(end_of_data)
+        dest_fp.seek(end_of_data)
         for i in pulses:
             helper_write_pulse(dest_fp, src, i)
 
-- 
2.43.0


From 94a4af88c6f6e70d178ab413c3ad4d60e8ab8ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:33 +0000
Subject: [PATCH 006/199] fix: make LJHModify work again

It used the long-gone attribute header_lines, wrote a str to a binary file and
stored the whole timing arrays into each record (or lost them, for LJH 2.1).
---
 mass/core/ljh_modify.py | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/mass/core/ljh_modify.py b/mass/core/ljh_modify.py
index 70cf88b..0e68fd1 100644
--- a/mass/core/ljh_modify.py
+++ b/mass/core/ljh_modify.py
@@ -43,33 +43,21 @@ def LJHModify(input_filename, output_filename, callback, overwrite=False):
 
     infile = LJHFile.open(input_filename)
     with open(output_filename, "wb") as outfile:
-        # Copy the header as a single string.
-        outfile.write("".join(infile.header_lines))
+        # Copy the header unchanged.
+        with open(input_filename, "rb") as fp:
+            outfile.write(fp.read(infile.header_size))
 
         # For now, we are not modifying the times and row #s
         # If we wanted to, that would require a fancier callback, I guess.
 
-        # Write the modified segdata (and the unmodified row count and timestamps).
+        # Write the modified data (and the unmodified row count and timestamps).
         updater = InlineUpdater("LJHModify")
-        if Version(infile.version_str.decode()) >= Version("2.2.0"):
-            for i in range(infile.nPulses):
-                data = callback(infile.alldata[i])
-                x = np.zeros((1,), dtype=infile.dtype)
-                x["subframecount"] = infile.subframecount
-                x["posix_usec"] = infile.datatimes_float * 1e6
-                x["data"] = data
-                x.tofile(outfile)
-                if i % 100 == 0:
-                    updater.update(float(i + 1) / infile.nPulses)
-
-        else:
-            for i in range(infile.nPulses):
-                data = callback(infile.alldata[i])
-                x = np.zeros((1, 3 + infile.nSamples), dtype=np.uint16)
-                x[:, 3:] = data
-                x.tofile(outfile)
-                if i % 100 == 0:
-                    updater.update(float(i + 1) / infile.nPulses)
+        for i in range(infile.nPulses):
+            x = np.array(infile._mm[i:i + 1])
+            x["data"] = callback(infile[i])
+            x.tofile(outfile)
+            if i % 100 == 0:
+                updater.update(float(i + 1) / infile.nPulses)
 
         updater.update(1.0)
 
-- 
2.43.0


From 4d88f3c5c161f3a7dc817e83366513b9ce626174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:33 +0000
Subject: [PATCH 007/199] fix: ljh_merge handles LJH 2.1 inputs and refuses to
 merge its output with itself

Merging LJH 2.1 files produced a corrupt mixture of record layouts, and with
--force an output file that matched the pattern was both overwritten and read.
---
 bin/ljh_merge | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bin/ljh_merge b/bin/ljh_merge
index c7e40ad..c010d31 100755
--- a/bin/ljh_merge
+++ b/bin/ljh_merge
@@ -15,14 +15,22 @@ import argparse
 import os
 import shutil
 import mass
+from packaging.version import Version
 from mass.core.ljh_util import filename_glob_expand
-from mass.core.ljh_modify import ljh_append_traces
+from mass.core.ljh_modify import ljh_append_traces, ljh_copy_traces
 
 
 def merge(out_path, filenames, overwrite):
     if not overwrite and os.path.isfile(out_path):
         raise OSError(f"To overwrite destination {out_path}, use the --force flag")
-    shutil.copy(filenames[0], out_path)
+    if os.path.isfile(out_path) and any(os.path.samefile(out_path, f) for f in filenames):
+        raise OSError(f"Destination {out_path} is also one of the files to merge")
+    first = mass.LJHFile.open(filenames[0])
+    if Version(first.version_str.decode()) < Version("2.2.0"):
+        # Traces can be appended only to a file of LJH version 2.2
+        ljh_copy_traces(filenames[0], out_path, range(first.nPulses), overwrite=overwrite)
+    else:
+        shutil.copy(filenames[0], out_path)
     f = mass.LJHFile.open(out_path)
     channum = f.channum
     print(f"Combining {len(filenames)} LJH files from channel {channum}")
-- 
2.43.0


From ec2779a37408ddd5ce6c5a4cbd6d05edb0e135a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:39 +0000
Subject: [PATCH 008/199] fix: ljh_get_channels works for bare file names and
 lists each channel once

A name without a directory part raised FileNotFoundError, and a channel with
several files (e.g., .ljh and .off) was listed several times.
---
 mass/core/ljh_util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index a31ffea..af97d2d 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -20,13 +20,13 @@ __all__ = ["ljh_basename_channum", "ljh_chan_names", "ljh_get_channels",
 def ljh_get_channels(fname):
     basename, chan = ljh_basename_channum(fname)
     filedir, ljhname = path.split(basename)
-    chans = []
-    for f in os.listdir(filedir):
+    chans = set()
+    for f in os.listdir(filedir or "."):
         if not os.path.isfile(os.path.join(filedir, f)):
             continue
         bname, chan = ljh_basename_channum(f)
         if bname == ljhname and isinstance(chan, int):
-            chans.append(chan)
+            chans.add(chan)
     return sorted(chans)
 
 
-- 
2.43.0


From cd4f29514aa62cbfc0afb0d6a25a65cc7b5ee1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:39 +0000
Subject: [PATCH 009/199] fix: ljh_sort_filenames_numerically accepts an
 inclusion list and any sequence

An inclusion list always raised AttributeError ('filter' object has no attribute
'sort'), a tuple could not be sorted, and a list argument was reordered in place.
---
 mass/core/ljh_util.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index af97d2d..c182d13 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -175,13 +175,12 @@ def ljh_sort_filenames_numerically(fnames, inclusion_list=None):
         return None
 
     if inclusion_list is not None:
-        fnames = filter(lambda n: ljh_channum(n) in inclusion_list, fnames)
+        fnames = [n for n in fnames if ljh_channum(n) in inclusion_list]
 
     # Sort the results first by raw filename, then sort numerically by LJH channel number.
     # Because string sort and the builtin `sorted` are both stable, we ensure that the first
     # sort is used to break ties in channel number.
-    fnames.sort()
-    return sorted(fnames, key=ljh_channum)
+    return sorted(sorted(fnames), key=ljh_channum)
 
 
 def filename_glob_expand(pattern):
-- 
2.43.0


From 0fb1b57ea1695952860ec690e62afe4c85253eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:39 +0000
Subject: [PATCH 010/199] fix: output_basename_from_ljh_fname raises
 ValueError, not a string

---
 mass/core/ljh_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index c182d13..11c74af 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -85,7 +85,7 @@ def output_basename_from_ljh_fname(ljh):
     basename, _ = ljh_basename_channum(ljh)
     ljhdir, fname = path.split(basename)
     if not path.isdir(ljhdir):
-        raise (f"ValueError {ljhdir} is not valid directory")
+        raise ValueError(f"{ljhdir} is not valid directory")
     outputdir = path.join(ljhdir, "mass_output")
     if not path.isdir(outputdir):
         os.mkdir(outputdir)
-- 
2.43.0


From a8bb42e0cae9aca1374ddfbceb0d4df829f27ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:39 +0000
Subject: [PATCH 011/199] fix: LJHFile can be opened in a directory whose name
 contains '_chan'

The channel number was parsed after the first '_chan' of the whole path instead
of the last one in the file name, as ljh_util does.
---
 mass/core/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index 78a8c1b..4c13df6 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -202,7 +202,7 @@ class LJHFile(MicrocalFile):
         self.header_dict = header_dict
         self.header_size = header_size
         self.client = None
-        self.channum = int(filename.split("_chan")[1].split(".")[0])
+        self.channum = int(os.path.basename(filename).split("_chan")[-1].split(".")[0])
         self.sample_usec = None
         self.timestamp_offset = None
         self.row_number = 0
-- 
2.43.0


From 6c079adbb64156e4b15149480519e72e4222582b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:39 +0000
Subject: [PATCH 012/199] fix: TESGroup accepts any sequence of filenames, and
 max_chans without noise files

A tuple of names failed an assertion, a caller's list lost its unpaired names,
and max_chans raised an exception with no noise files or with noise_only=True.
---
 mass/core/channel_group.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 222227a..8d64052 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -147,6 +147,12 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             if noise_filenames is None or len(noise_filenames) == 0:
                 raise ValueError(f"Noise filename pattern {pattern} expanded to no files")
 
+        # Work with lists, and with copies, so that the caller's lists are not altered.
+        if not isstr(filenames) and filenames is not None:
+            filenames = list(filenames)
+        if noise_filenames is not None:
+            noise_filenames = list(noise_filenames)
+
         # If using a glob pattern especially, we have to be careful to eliminate files that are
         # missing a partner, either noise without pulse or pulse without noise.
         remove_unpaired_channel_files(filenames, noise_filenames,
@@ -154,9 +160,9 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
 
         # enforce max_chans
         if max_chans is not None:
-            n = min(max_chans, len(filenames))
-            filenames = filenames[:n]
-            noise_filenames = noise_filenames[:n]
+            filenames = filenames[:max_chans]
+            if noise_filenames is not None:
+                noise_filenames = noise_filenames[:max_chans]
 
         # Figure out where the 2 HDF5 files are to live, if the default argument
         # was given for their paths.
-- 
2.43.0


From f6bb95889d5a3061dd2ce0a956502a9f7c992ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:55 +0000
Subject: [PATCH 013/199] fix: TESGroup honors never_use and use_only when
 noise_only=True

---
 mass/core/channel_group.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 8d64052..aea81c0 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -155,8 +155,12 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
 
         # If using a glob pattern especially, we have to be careful to eliminate files that are
         # missing a partner, either noise without pulse or pulse without noise.
-        remove_unpaired_channel_files(filenames, noise_filenames,
-                                      never_use=never_use, use_only=use_only)
+        if filenames:
+            remove_unpaired_channel_files(filenames, noise_filenames,
+                                          never_use=never_use, use_only=use_only)
+        else:
+            remove_unpaired_channel_files(noise_filenames, None,
+                                          never_use=never_use, use_only=use_only)
 
         # enforce max_chans
         if max_chans is not None:
-- 
2.43.0


From 7120fdcbdabdd6777cb45d459444586b6538644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:16 +0000
Subject: [PATCH 014/199] fix: TESGroup pairs noise files with the pulse files
 of the same channel

Explicit lists in different orders were paired by position, and each mismatched
channel was silently left out of the analysis.
---
 mass/core/channel_group.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index aea81c0..b70ce31 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -24,7 +24,7 @@ from mass.calibration.energy_calibration import EnergyCalibration
 from mass.core.channel import MicrocalDataSet, PulseRecords, NoiseRecords, GroupLooper
 from mass.core.cut import CutFieldMixin
 from mass.core.utilities import InlineUpdater, show_progress, plot_multipage
-from mass.core.ljh_util import remove_unpaired_channel_files, filename_glob_expand, ljh_get_extern_trig_fnames
+from mass.core.ljh_util import ljh_channum, remove_unpaired_channel_files, filename_glob_expand, ljh_get_extern_trig_fnames
 from ..common import isstr
 
 LOG = logging.getLogger("mass")
@@ -162,6 +162,11 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             remove_unpaired_channel_files(noise_filenames, None,
                                           never_use=never_use, use_only=use_only)
 
+        # Put noise files in the same channel order as the pulse files.
+        if filenames and noise_filenames:
+            noise_by_channel = {ljh_channum(f): f for f in noise_filenames}
+            noise_filenames = [noise_by_channel[ljh_channum(f)] for f in filenames]
+
         # enforce max_chans
         if max_chans is not None:
             filenames = filenames[:max_chans]
-- 
2.43.0


From 0e7eb31335b594f6f576977e8e08d2a29213776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:36 +0000
Subject: [PATCH 015/199] fix: ljh_basename_channum ignores directory names
 that contain '_chan'

As documented, the channel number is found in the file's base name.
---
 mass/core/ljh_util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index 11c74af..cc1430b 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -50,7 +50,9 @@ def ljh_basename_channum(fname):
             fname = fname[:-1]
         base_dir, ljh_dir = path.split(fname)
         fname = path.join(base_dir, ljh_dir, ljh_dir)
-    chanmatches = re.finditer(r"_chan\d+", fname)
+    # Search only the file's base name, not the directories it's in.
+    base_start = len(fname) - len(path.split(fname)[1])
+    chanmatches = re.compile(r"_chan\d+").finditer(fname, base_start)
     last_chan_match = None
     for last_chan_match in chanmatches:
         pass
-- 
2.43.0


From e7e1ad183264115e59e0ffccd9a5062d8ac67964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:51 +0000
Subject: [PATCH 016/199] fix: ljh_records_to_off sizes its segments by the
 record size

It divided by the size of the whole file: one record at a time for any file
over 1 MB, and ZeroDivisionError for a file with no records.
---
 mass/core/ljh2off.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index f5e2608..13aece9 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -87,7 +87,7 @@ def ljh_records_to_off(ljhfile, f, projectors, basis, n_ignore_presamples, dtype
 
     # To keep linear algebra sizes manageable, loop over the file in segments
     seg_bytes = 2**21
-    rec_per_seg = max(seg_bytes // ljhfile.binary_size, 1)
+    rec_per_seg = max(seg_bytes // ljhfile.pulse_size_bytes, 1)
 
     records_written = 0
     for idx_lo in np.arange(0, ljhfile.nPulses, rec_per_seg):
-- 
2.43.0


From d331307997ac0c3cc8cb4ced9d7d3ea58b1d134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:51 +0000
Subject: [PATCH 017/199] fix: multi_ljh2off_loop skips files that do not exist

A channel present in only some of the LJH file sets raised FileNotFoundError,
though only one of the files is meant to be required.
---
 mass/core/ljh2off.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index 13aece9..9e14ece 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -138,7 +138,8 @@ def multi_ljh2off_loop(ljhbases, h5_path, off_basename, max_channels, n_ignore_p
     for channum, pulse_model in pulse_model_dict.items():
         ljhpaths = [f'{ljhbase}_chan{channum}.ljh' for ljhbase in ljhbases]
         offpath = f'{off_basename}_chan{channum}.off'
-        if not any([os.path.isfile(ljhpath) for ljhpath in ljhpaths]):
+        ljhpaths = [ljhpath for ljhpath in ljhpaths if os.path.isfile(ljhpath)]
+        if len(ljhpaths) == 0:
             continue  # make sure at least one of the desired files exists
         multi_ljh2off(ljhpaths, offpath, pulse_model.projectors,
                       pulse_model.basis, n_ignore_presamples, h5_path)
-- 
2.43.0


From ddc2e81427fb0f159ef03f4cae89d7851316268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:51 +0000
Subject: [PATCH 018/199] fix: OffFile reads files whose JSON header has
 non-ASCII characters

The header length was counted in characters instead of bytes.
---
 mass/off/off.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/off.py b/mass/off/off.py
index b226a59..8db5dcc 100644
--- a/mass/off/off.py
+++ b/mass/off/off.py
@@ -74,7 +74,7 @@ class OffFile:
         with open(self.filename, "rb") as f:
             self.headerString = readJsonString(f)
             # self.headerStringLength = f.tell() # doesn't work on windows because readline uses a readahead buffer
-            self.headerStringLength = len(self.headerString)
+            self.headerStringLength = len(self.headerString.encode("utf-8"))
         self.header = json.loads(self.headerString)
         self.dtype = recordDtype(self.header["FileFormatVersion"], self.header["NumberOfBases"])
         self._dtype_non_descriptive = recordDtype(
-- 
2.43.0


From 6c3fe853e8c513c4f4032cadc7bb8fbbd70a1b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:51 +0000
Subject: [PATCH 019/199] fix: PulseModel.toHDF5(save_inverted=True) does not
 alter the model in memory

Indexing with [()] gives a view, so the sign flips meant for the file were
applied to the object itself.
---
 mass/core/pulse_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/pulse_model.py b/mass/core/pulse_model.py
index 7049693..7ba8866 100644
--- a/mass/core/pulse_model.py
+++ b/mass/core/pulse_model.py
@@ -51,7 +51,7 @@ class PulseModel:
         self.noise_autocorr = noise_autocorr
 
     def toHDF5(self, hdf5_group, save_inverted):
-        projectors, basis = self.projectors[()], self.basis[()]
+        projectors, basis = np.array(self.projectors), np.array(self.basis)
         if save_inverted:
             # flip every component except the mean component if data is being inverted
             basis[:, 1:] *= -1
-- 
2.43.0


From ce9ab951ec53df4a2c852c5cec568abecbbec608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:05 +0000
Subject: [PATCH 020/199] fix: pulse_model_to_hdf5 works when 'chan' appears
 elsewhere in the path

---
 mass/core/channel_group.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index b70ce31..f010847 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -24,7 +24,8 @@ from mass.calibration.energy_calibration import EnergyCalibration
 from mass.core.channel import MicrocalDataSet, PulseRecords, NoiseRecords, GroupLooper
 from mass.core.cut import CutFieldMixin
 from mass.core.utilities import InlineUpdater, show_progress, plot_multipage
-from mass.core.ljh_util import ljh_channum, remove_unpaired_channel_files, filename_glob_expand, ljh_get_extern_trig_fnames
+from mass.core.ljh_util import ljh_basename_channum, ljh_channum, ljh_get_extern_trig_fnames, \
+    remove_unpaired_channel_files, filename_glob_expand
 from ..common import isstr
 
 LOG = logging.getLogger("mass")
@@ -585,8 +586,8 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         if category is None:
             category = {}
         if hdf5_file is None:
-            basename, _ = self.datasets[0].filename.split("chan")
-            hdf5_filename = basename + "model.hdf5"
+            basename, _ = ljh_basename_channum(self.datasets[0].filename)
+            hdf5_filename = basename + "_model.hdf5"
             if os.path.isfile(hdf5_filename):
                 if not replace_output:
                     raise Exception(
-- 
2.43.0


From 046d4bd92122ccd8e37aa3b75088ea4c88b31a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 021/199] fix: registering a boolean cut field twice in one
 call uses one bit

---
 mass/core/cut.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/cut.py b/mass/core/cut.py
index 95c2991..88e3715 100644
--- a/mass/core/cut.py
+++ b/mass/core/cut.py
@@ -192,7 +192,8 @@ class CutFieldMixin:
         boolean_fields = self.boolean_cut_desc
         cut_used_bit_flags = self.cut_used_bit_flags
 
-        new_fields = [n.encode() for n in names if n.encode() not in boolean_fields["name"]]
+        new_fields = [n.encode() for n in dict.fromkeys(names)
+                      if n.encode() not in boolean_fields["name"]]
 
         uint32_one = np.uint32(1)
         for new_field in new_fields:
-- 
2.43.0


From 243294fdbbe569dcbf2afd6a0572bd8fa31a81bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 022/199] fix: unregistering a cut field clears its bits from
 the cut masks

---
 mass/core/cut.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mass/core/cut.py b/mass/core/cut.py
index 88e3715..2b4a06f 100644
--- a/mass/core/cut.py
+++ b/mass/core/cut.py
@@ -230,6 +230,7 @@ class CutFieldMixin:
 
         self.boolean_cut_desc = boolean_fields
         self.cut_used_bit_flags &= ~clear_mask
+        self.__clear_bits_all_channels(clear_mask)
 
     def register_categorical_cut_field(self, name, categories, default="uncategorized"):
         """Register one categorical cut field.
@@ -315,6 +316,15 @@ class CutFieldMixin:
         self.categorical_cut_desc = new_categorical_fields
         self.cut_category_list = new_category_list
         self.cut_used_bit_flags &= ~clear_mask
+        self.__clear_bits_all_channels(clear_mask)
+
+    def __clear_bits_all_channels(self, clear_mask):
+        """Clear bits released by unregistered fields in the cut masks of all channels, so that
+        a field registered later doesn't inherit the cuts of the unregistered one."""
+        for name in self.hdf5_file:
+            if name.startswith("chan") and f"{name}/cuts/mask" in self.hdf5_file:
+                mask = self.hdf5_file[f"{name}/cuts/mask"]
+                mask[...] &= ~np.asarray(clear_mask).astype(mask.dtype)
 
 
 class Cuts:
-- 
2.43.0


From da0e6adbcc261d81b57d0283f25929c26b2eef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 023/199] fix: cut_parameter also cuts NaN values when limits
 are given

---
 mass/core/cut.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/mass/core/cut.py b/mass/core/cut.py
index 2b4a06f..e81ce8f 100644
--- a/mass/core/cut.py
+++ b/mass/core/cut.py
@@ -473,13 +473,11 @@ class Cuts:
         else:
             try:
                 a, b = allowed
-                if a and b:
-                    self.cut(cut_id, (data[:] <= a) | (data[:] >= b))
-                else:
-                    if a is not None:
-                        self.cut(cut_id, data[:] <= a)
-                    if b is not None:
-                        self.cut(cut_id, data[:] >= b)
+                # Values like NaN that don't satisfy a < data < b must be cut, too.
+                if a is not None:
+                    self.cut(cut_id, ~(data[:] > a))
+                if b is not None:
+                    self.cut(cut_id, ~(data[:] < b))
             except ValueError:
                 raise ValueError(f'{str(allowed)} was passed as a cut element, but only two-element sequences are valid.')
 
-- 
2.43.0


From 88442c60412116b4c9b68c182662d39b48b651d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 024/199] fix: auto_cuts uses the max derivative of every noise
 record, not only the last

---
 mass/core/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 18a1b83..c69b1c7 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2182,10 +2182,11 @@ class MicrocalDataSet:  # noqa: PLR0904
 
         # Step 2: analyze *noise* so we know how to cut on pretrig rms postpeak_deriv
         pretrigger_rms = np.zeros(self.noise_records.nPulses)
+        max_deriv = np.zeros(self.noise_records.nPulses)
         for i in range(self.noise_records.nPulses):
             data = self.noise_records.datafile.alldata[i]
             pretrigger_rms[i] = data[:self.nPresamples].std()
-        max_deriv = mass.analysis_algorithms.compute_max_deriv(data, ignore_leading=0)
+            max_deriv[i] = mass.analysis_algorithms.compute_max_deriv(data, ignore_leading=0)
 
         # Multiply MAD by 1.4826 to get into terms of sigma, if distribution were Gaussian.
         md_med = np.median(max_deriv)
-- 
2.43.0


From 7015c9a25054e1237f773bb53a641a585e3dda73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 025/199] fix: cut_summary prints the number of pulses cut by
 each field

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index c69b1c7..e0693f5 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2130,7 +2130,7 @@ class MicrocalDataSet:  # noqa: PLR0904
                 print(f"{n_and:6d} (and) %{n_or:6d} (or) pulses cut by [{c1.upper()} and/or {c2.upper()}]")
         print()
         for cut_name in boolean_fields:
-            print("{self.cuts.bad(cut_name).sum():6d} pulses cut by {cut_name.upper()}")
+            print(f"{self.cuts.bad(cut_name).sum():6d} pulses cut by {cut_name.upper()}")
         print(f"{self.nPulses:6d} pulses total")
 
     @_add_group_loop()
-- 
2.43.0


From ea6795a59e023159eba53cafdc277028c05017b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:09 +0000
Subject: [PATCH 026/199] fix: apply_cuts(forceNew=False) skips when cuts
 exist, as it says it does

---
 mass/core/channel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index e0693f5..8350021 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1650,6 +1650,7 @@ class MicrocalDataSet:  # noqa: PLR0904
             if self.cuts.good().sum() != self.nPulses:
                 LOG.info("Chan %d skipped cuts: after %d are good, %d are bad of %d total pulses",
                          self.channum, self.cuts.good().sum(), self.cuts.bad().sum(), self.nPulses)
+                return
 
         if clear:
             self.clear_cuts()
-- 
2.43.0


From 02a296c025f8cd6a909a48406d4cfa3cc5add579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:09 +0000
Subject: [PATCH 027/199] fix: clear_cuts also forgets the auto cuts saved in
 HDF5

---
 mass/core/channel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 8350021..af75946 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1692,6 +1692,8 @@ class MicrocalDataSet:  # noqa: PLR0904
         """Clear all cuts."""
         self.cuts.clear_cut()
         self.saved_auto_cuts = None
+        if "auto_cuts" in self.hdf5_group["cuts"]:
+            del self.hdf5_group["cuts"]["auto_cuts"]
 
     def correct_flux_jumps(self, flux_quant):
         '''Remove 'flux' jumps' from pretrigger mean.
-- 
2.43.0


From 9f37331dbd2b09fa85a9eca6a3bece90efcca61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:15 +0000
Subject: [PATCH 028/199] fix: summarize_data_cython handles segments of more
 than 65535 records

---
 mass/core/cython_channel.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/core/cython_channel.pyx b/mass/core/cython_channel.pyx
index a07f273..836bbf8 100644
--- a/mass/core/cython_channel.pyx
+++ b/mass/core/cython_channel.pyx
@@ -46,12 +46,12 @@ def summarize_data_cython(
         double ptm
         unsigned short peak_value, peak_index, min_value
         unsigned short signal
-        unsigned short nPulses, nSamples, seg_size
-        unsigned short e_nPresamples, s_prompt, e_prompt
+        Py_ssize_t nPulses, nSamples, seg_size
+        Py_ssize_t e_nPresamples, s_prompt, e_prompt
 
         unsigned short low_th, high_th
         unsigned short high_value
-        unsigned short low_idx, high_idx
+        Py_ssize_t low_idx, high_idx
 
         long f0 = 2, f1 = 1, f3 = -1, f4 = -2
         long s0, s1, s2, s3, s4
-- 
2.43.0


From c31c5e299b2287ba277addc336c7abafb601f291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:15 +0000
Subject: [PATCH 029/199] fix: summarize_data_cython doesn't read outside the
 pulse records

---
 mass/core/cython_channel.pyx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mass/core/cython_channel.pyx b/mass/core/cython_channel.pyx
index 836bbf8..4a38023 100644
--- a/mass/core/cython_channel.pyx
+++ b/mass/core/cython_channel.pyx
@@ -66,6 +66,11 @@ def summarize_data_cython(
     seg_size = end-first
 
     e_nPresamples = nPresamples - pretrigger_ignore
+    if pretrigger_ignore < 0 or e_nPresamples <= 0 or nPresamples >= nSamples:
+        raise ValueError(f"Cannot summarize {nSamples}-sample records with {nPresamples} presamples "
+                         f"when ignoring the last {pretrigger_ignore} presamples")
+    if first < 0 or end > nPulses or first > end:
+        raise ValueError(f"Cannot summarize records [{first}, {end}) of {nPulses}")
 
     # Buffers for a single segment calculation.
     p_pretrig_mean_array = np.empty(seg_size, dtype=np.float32)
@@ -192,6 +197,10 @@ def summarize_data_cython(
 
         # Calculating the postpeak_deriv with a simple kernel
         # (f0, f1, f2 = 0, f3, f4) and spike_reject on.
+        # It needs at least 7 samples.
+        if peak_samplenumber < 0 or peak_samplenumber + 7 > nSamples:
+            p_postpeak_deriv_array[j] = 0.0
+            continue
         s0 = pulse[peak_samplenumber]
         s1 = pulse[peak_samplenumber + 1]
         s2 = pulse[peak_samplenumber + 2]
-- 
2.43.0


From ecbcae243008e33430023b4611b22be821dd52ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:15 +0000
Subject: [PATCH 030/199] fix: summarize_data_cython handles records with no
 pulse above the pretrigger mean

---
 mass/core/cython_channel.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mass/core/cython_channel.pyx b/mass/core/cython_channel.pyx
index 4a38023..b14eb82 100644
--- a/mass/core/cython_channel.pyx
+++ b/mass/core/cython_channel.pyx
@@ -148,13 +148,17 @@ def summarize_data_cython(
         p_pretrig_rms_array[j] = <float>ptrms
         if ptm < peak_value:
             peak_value -= <unsigned short>(ptm+0.5)
-            p_promptness_array[j] = <float>((promptness_sum / 6.0 - ptm) / peak_value)
+            if peak_value > 0:
+                p_promptness_array[j] = <float>((promptness_sum / 6.0 - ptm) / peak_value)
+            else:
+                p_promptness_array[j] = <float>0.0
             p_peak_value_array[j] = <unsigned short>peak_value
             p_peak_index_array[j] = <unsigned short>peak_index
         else:
             # Basically a nonsense pulse: the pretrigger mean exceeds the highest post-trigger value.
             # This would normally happen only if the crate's re-lock mechanism fires during a record.
             p_promptness_array[j] = <float>0.0
+            peak_value = 0
             p_peak_value_array[j] = <unsigned short>0
             p_peak_index_array[j] = <unsigned short>0
         p_min_value_array[j] = min_value
-- 
2.43.0


From 4fc92573907e2277df34e63070b017bc50a071d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 031/199] fix: summarize_data(use_cython=True) honors cut_pre
 and cut_post

---
 mass/core/channel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index af75946..38b4223 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -955,8 +955,9 @@ class MicrocalDataSet:  # noqa: PLR0904
                 first = segnum * self.pulse_records.pulses_per_seg
                 end = min(first + self.pulse_records.pulses_per_seg, self.nPulses)
                 idx_slice = slice(first, end)
-                results = sumdata(self.data[idx_slice], self.timebase, self.peak_samplenumber,
-                                  self.pretrigger_ignore_samples, self.nPresamples,
+                results = sumdata(self.data[idx_slice, self.cut_pre:self.nSamples - self.cut_post],
+                                  self.timebase, self.peak_samplenumber - self.cut_pre,
+                                  self.pretrigger_ignore_samples, self.nPresamples - self.cut_pre,
                                   0, end - first)
                 self.p_pretrig_mean[idx_slice] = results["pretrig_mean"][:]
                 self.p_pretrig_rms[idx_slice] = results["pretrig_rms"][:]
@@ -964,7 +965,7 @@ class MicrocalDataSet:  # noqa: PLR0904
                 self.p_pulse_rms[idx_slice] = results["pulse_rms"][:]
                 self.p_promptness[idx_slice] = results["promptness"][:]
                 self.p_postpeak_deriv[idx_slice] = results["postpeak_deriv"][:]
-                self.p_peak_index[idx_slice] = results["peak_index"][:]
+                self.p_peak_index[idx_slice] = np.asarray(results["peak_index"]) + self.cut_pre
                 self.p_peak_value[idx_slice] = results["peak_value"][:]
                 self.p_min_value[idx_slice] = results["min_value"][:]
                 self.p_rise_time[idx_slice] = results["rise_times"][:]
-- 
2.43.0


From 4cd4898d36c44399ca29690b732bc4efd67072d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 032/199] fix: non-cython summarize_data: peak_value can't wrap
 below zero

---
 mass/core/channel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 38b4223..8cf5176 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1014,14 +1014,14 @@ class MicrocalDataSet:  # noqa: PLR0904
         self.p_pretrig_mean[idx_slice] = pretrig_data.mean(axis=1)
         self.p_pretrig_rms[idx_slice] = pretrig_data.std(axis=1)
         self.p_peak_index[idx_slice] = posttrig_data.argmax(axis=1) + self.nPresamples
-        self.p_peak_value[idx_slice] = posttrig_data.max(axis=1)
         self.p_min_value[idx_slice] = all_data.min(axis=1)
         self.p_pulse_average[idx_slice] = posttrig_data.mean(axis=1)
 
         # Remove the pretrigger mean from the peak value and the pulse average figures.
         ptm = self.p_pretrig_mean[idx_slice]
         self.p_pulse_average[idx_slice] -= ptm
-        self.p_peak_value[idx_slice] -= np.asarray(ptm, dtype=self.p_peak_value.dtype)
+        peak_above_mean = posttrig_data.max(axis=1).astype(int) - ptm.astype(int)
+        self.p_peak_value[idx_slice] = np.maximum(peak_above_mean, 0)
         self.p_pulse_rms[idx_slice] = np.sqrt(
             (posttrig_data**2.0).mean(axis=1)
             - ptm * (ptm + 2 * self.p_pulse_average[idx_slice]))
-- 
2.43.0


From 74b3d4c172a3b8a7a3f05a12e779bf0ff942cd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 033/199] fix: estimateRiseTime and compute_max_deriv leave the
 shape of their input alone

---
 mass/core/analysis_algorithms.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 7379ab4..f772cd5 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -58,7 +58,7 @@ def estimateRiseTime(pulse_data, timebase, nPretrig):
     if ndim > 2 or ndim < 1:
         raise ValueError("input pulse_data should be a 1d or 2d array.")
     if ndim == 1:
-        pulse_data.shape = (1, pulse_data.shape[0])
+        pulse_data = pulse_data.reshape(1, -1)
 
     # The following requires a lot of numpy foo to read. Sorry!
     if nPretrig >= 4:
@@ -102,7 +102,7 @@ def python_compute_max_deriv(pulse_data, ignore_leading, spike_reject=True, kern
     if ndim > 2 or ndim < 1:
         raise ValueError("input pulse_data should be a 1d or 2d array.")
     if ndim == 1:
-        pulse_data.shape = (1, pulse_data.shape[0])
+        pulse_data = pulse_data.reshape(1, -1)
     pulse_data = np.array(pulse_data[:, ignore_leading:], dtype=float)
     NPulse, NSamp = pulse_data.shape
 
@@ -171,7 +171,7 @@ def compute_max_deriv(pulse_data, ignore_leading, spike_reject=True, kernel=None
     if ndim > 2 or ndim < 1:
         raise ValueError("input pulse_data should be a 1d or 2d array.")
     if ndim == 1:
-        pulse_data.shape = (1, pulse_data.shape[0])
+        pulse_data = pulse_data.reshape(1, -1)
     pulse_view = pulse_data[:, ignore_leading:]
     NPulse = pulse_view.shape[0]
     NSamp = pulse_view.shape[1]
-- 
2.43.0


From 59c0d70cb0a58bacdf4d32ae01075435917ca570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 034/199] fix: estimateRiseTime of one record doesn't depend on
 the other records

---
 mass/core/analysis_algorithms.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index f772cd5..071c379 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -67,7 +67,8 @@ def estimateRiseTime(pulse_data, timebase, nPretrig):
         baseline_value = pulse_data.min(axis=1)
         nPretrig = 0
     value_at_peak = pulse_data.max(axis=1) - baseline_value
-    idx_last_pk = pulse_data.argmax(axis=1).max()
+    idx_pk = pulse_data.argmax(axis=1)
+    idx_last_pk = idx_pk.max()
 
     npulses = pulse_data.shape[0]
     try:
@@ -78,7 +79,7 @@ def estimateRiseTime(pulse_data, timebase, nPretrig):
         last_idx = (rising_data > MAXTHRESH).argmax(axis=1)-1
         first_idx = (rising_data > MINTHRESH).argmax(axis=1)
         last_idx[last_idx < first_idx] = first_idx[last_idx < first_idx]+1
-        last_idx[last_idx == rising_data.shape[1]] = rising_data.shape[1]-1
+        last_idx = np.minimum(last_idx, np.maximum(idx_pk-nPretrig, 0))
 
         pulsenum = np.arange(npulses)
         y_diff = np.asarray(rising_data[pulsenum, last_idx]-rising_data[pulsenum, first_idx],
@@ -87,6 +88,7 @@ def estimateRiseTime(pulse_data, timebase, nPretrig):
         time_diff = timebase*(last_idx-first_idx)
         rise_time = time_diff / y_diff
         rise_time[y_diff <= 0] = -9.9e-6
+        rise_time[idx_pk < nPretrig] = -9.9e-6
         return rise_time
 
     except ValueError:
-- 
2.43.0


From 6694d2403d88128a2e1662699c6d7d2e71af1c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:47 +0000
Subject: [PATCH 035/199] fix: compute_max_deriv raises on records too short
 for its kernel

---
 mass/core/analysis_algorithms.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 071c379..247e126 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -177,6 +177,9 @@ def compute_max_deriv(pulse_data, ignore_leading, spike_reject=True, kernel=None
     pulse_view = pulse_data[:, ignore_leading:]
     NPulse = pulse_view.shape[0]
     NSamp = pulse_view.shape[1]
+    min_samples = 7 if spike_reject else 5
+    if NSamp < min_samples:
+        raise ValueError(f"compute_max_deriv requires at least {min_samples} samples; only {NSamp} given")
 
     # The default filter:
     filter_coef = np.array([+.2, +.1, 0, -.1, -.2])
-- 
2.43.0


From 6f1f444212cf568bad642108565b0e004849c1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:14 +0000
Subject: [PATCH 036/199] fix: non-cython summarize_data handles records too
 short for the post-peak derivative

---
 mass/core/channel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 8cf5176..2fecfe5 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1041,8 +1041,12 @@ class MicrocalDataSet:  # noqa: PLR0904
         self.p_rise_time[idx_slice] = mass.core.analysis_algorithms.estimateRiseTime(
             all_data, timebase=self.timebase, nPretrig=self.nPresamples - self.cut_pre)
 
-        self.p_postpeak_deriv[idx_slice] = mass.core.analysis_algorithms.compute_max_deriv(
-            all_data, ignore_leading=self.peak_samplenumber - self.cut_pre)
+        ignore_leading = self.peak_samplenumber - self.cut_pre
+        if ignore_leading >= 0 and all_data.shape[1] - ignore_leading >= 7:
+            self.p_postpeak_deriv[idx_slice] = mass.core.analysis_algorithms.compute_max_deriv(
+                all_data, ignore_leading=ignore_leading)
+        else:
+            self.p_postpeak_deriv[idx_slice] = 0.0
 
     def __parse_expt_states(self):
         """
-- 
2.43.0


From 96eceee39ef905582baa118c7ad0fb987827ad09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:14 +0000
Subject: [PATCH 037/199] fix: non-cython summarize_data computes pulse_rms in
 double precision

---
 mass/core/channel.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 2fecfe5..2e1d3e2 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1011,20 +1011,21 @@ class MicrocalDataSet:  # noqa: PLR0904
             self.p_pretrig_deriv[idx_slice] = 0.0
             self.p_pretrig_offset[idx_slice] = 0.0
 
-        self.p_pretrig_mean[idx_slice] = pretrig_data.mean(axis=1)
+        ptm = pretrig_data.mean(axis=1)
+        self.p_pretrig_mean[idx_slice] = ptm
         self.p_pretrig_rms[idx_slice] = pretrig_data.std(axis=1)
         self.p_peak_index[idx_slice] = posttrig_data.argmax(axis=1) + self.nPresamples
         self.p_min_value[idx_slice] = all_data.min(axis=1)
-        self.p_pulse_average[idx_slice] = posttrig_data.mean(axis=1)
 
         # Remove the pretrigger mean from the peak value and the pulse average figures.
-        ptm = self.p_pretrig_mean[idx_slice]
-        self.p_pulse_average[idx_slice] -= ptm
+        # Use double precision, not the stored (single-precision) values, to avoid loss of precision.
+        pulse_average = posttrig_data.mean(axis=1) - ptm
+        self.p_pulse_average[idx_slice] = pulse_average
         peak_above_mean = posttrig_data.max(axis=1).astype(int) - ptm.astype(int)
         self.p_peak_value[idx_slice] = np.maximum(peak_above_mean, 0)
         self.p_pulse_rms[idx_slice] = np.sqrt(
             (posttrig_data**2.0).mean(axis=1)
-            - ptm * (ptm + 2 * self.p_pulse_average[idx_slice]))
+            - ptm * (ptm + 2 * pulse_average))
 
         shift1 = (self.data[idx_slice, self.nPresamples - 1] - ptm
                   > 4.3 * self.p_pretrig_rms[idx_slice])
-- 
2.43.0


From 1074a16a001e97fba1b107433af3e5979c320510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:57 +0000
Subject: [PATCH 038/199] fix: compute_max_deriv accepts a kernel given as an
 array

---
 mass/core/analysis_algorithms.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 247e126..87053d0 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -110,7 +110,7 @@ def python_compute_max_deriv(pulse_data, ignore_leading, spike_reject=True, kern
 
     # The default filter:
     filter_coef = np.array([+.2, +.1, 0, -.1, -.2])
-    if kernel == "SG":
+    if isinstance(kernel, str) and kernel == "SG":
         # This filter is the Savitzky-Golay filter of n_L=1, n_R=3 and M=3, to use the
         # language of Numerical Recipes 3rd edition.  It amounts to least-squares fitting
         # of an M=3rd order polynomial to the five points [-1,+3] and
@@ -183,7 +183,7 @@ def compute_max_deriv(pulse_data, ignore_leading, spike_reject=True, kernel=None
 
     # The default filter:
     filter_coef = np.array([+.2, +.1, 0, -.1, -.2])
-    if kernel == "SG":
+    if isinstance(kernel, str) and kernel == "SG":
         # This filter is the Savitzky-Golay filter of n_L=1, n_R=3 and M=3, to use the
         # language of Numerical Recipes 3rd edition.  It amounts to least-squares fitting
         # of an M=3rd order polynomial to the five points [-1,+3] and
-- 
2.43.0


From 868b0fc72820fb425544df8c5777af61abb25595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:30 +0000
Subject: [PATCH 039/199] fix: an incomplete record at the end of an LJH file
 doesn't add an empty segment

---
 mass/core/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index 4c13df6..0b42832 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -303,7 +303,7 @@ class LJHFile(MicrocalFile):
                 f"segmentsize={segmentsize} is not permitted to be smaller than pulse record ({self.pulse_size_bytes} bytes)")
         self.segmentsize = maxitems * self.pulse_size_bytes
         self.pulses_per_seg = self.segmentsize // self.pulse_size_bytes
-        self.n_segments = 1 + (self.binary_size - 1) // self.segmentsize
+        self.n_segments = 1 + (self.nPulses - 1) // self.pulses_per_seg
 
     def _open_mm(self):
         self._mm = np.memmap(self.filename, offset=self.header_size, shape=(self.nPulses,),
-- 
2.43.0


From 18831deb90125890622b289d3cb09768f5cf08fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 040/199] fix: TESGroup.set_segment_size sets the number of
 segments

---
 mass/core/channel_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index f010847..e339276 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -1099,7 +1099,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         self.n_segments = 0
         for ds in self:
             ds.pulse_records.set_segment_size(seg_size)
-            self.n_segments = max(self.n_segments, ds.pulse_records.pulses_per_seg)
+            self.n_segments = max(self.n_segments, ds.pulse_records.n_segments)
         self.pulses_per_seg = self.first_good_dataset.pulse_records.pulses_per_seg
         for ds in self:
             assert ds.pulse_records.pulses_per_seg == self.pulses_per_seg
-- 
2.43.0


From 8d771fc14f02e662c4b42e481cee98cd36f157db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:09 +0000
Subject: [PATCH 041/199] fix: nearest_arrivals with a single external trigger

---
 mass/core/analysis_algorithms.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 87053d0..07df243 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -749,12 +749,12 @@ def nearest_arrivals(long long[:] pulse_timestamps, long long[:] external_trigge
 
         for i in range(num_pulses):
             pt = pulse_timestamps[i]
-            if pt > a:
+            if pt >= a:
                 delay_from_last_trigger[i] = pt - a
                 delay_until_next_trigger[i] = max_value
             else:
                 delay_from_last_trigger[i] = max_value
-                dealay_until_next_trigger = a - pt
+                delay_until_next_trigger[i] = a - pt
     else:
         for i in range(num_pulses):
             delay_from_last_trigger[i] = max_value
-- 
2.43.0


From a78e83d9d3edc308a718783ec2359ef3a4ec9db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:09 +0000
Subject: [PATCH 042/199] fix: nearest_arrivals returns two arrays when there
 are no pulses

---
 mass/core/analysis_algorithms.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 07df243..cb1a3d0 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -698,7 +698,7 @@ def nearest_arrivals(long long[:] pulse_timestamps, long long[:] external_trigge
     num_triggers = external_trigger_timestamps.shape[0]
 
     if num_pulses < 1:
-        return np.array([], dtype=np.int64)
+        return np.array([], dtype=np.int64), np.array([], dtype=np.int64)
 
     delay_from_last_trigger = np.zeros_like(pulse_timestamps, dtype=np.int64)
     delay_until_next_trigger = np.zeros_like(pulse_timestamps, dtype=np.int64)
-- 
2.43.0


From 4f4622731b547b6bc2d23ff88f30375c28e7ef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:09 +0000
Subject: [PATCH 043/199] fix: python_nearest_arrivals is identical to
 nearest_arrivals

---
 mass/core/analysis_algorithms.pyx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index cb1a3d0..349c025 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -641,7 +641,13 @@ class FilterTimeCorrection:
 @cython.embedsignature(True)
 def python_nearest_arrivals(reference_times, other_times):
     """Identical to nearest_arrivals(...)."""
-    nearest_after_index = np.searchsorted(other_times, reference_times)
+    reference_times = np.asarray(reference_times)
+    other_times = np.asarray(other_times)
+    max_value = np.iinfo(np.int64).max
+    if other_times.size == 0:
+        return (np.full(reference_times.shape, max_value, dtype=np.int64),
+                np.full(reference_times.shape, max_value, dtype=np.int64))
+    nearest_after_index = np.searchsorted(other_times, reference_times, side="right")
     # because both sets of arrival times should be sorted, there are faster algorithms than searchsorted
     # for example: https://github.com/kwgoodman/bottleneck/issues/47
     # we could use one if performance becomes an issue
@@ -652,11 +658,11 @@ def python_nearest_arrivals(reference_times, other_times):
     nearest_before_index[:first_index] = 1
     nearest_before_index -= 1
     before_times = reference_times-other_times[nearest_before_index]
-    before_times[:first_index] = np.Inf
+    before_times[:first_index] = max_value
 
     nearest_after_index[last_index:] = other_times.size-1
     after_times = other_times[nearest_after_index]-reference_times
-    after_times[last_index:] = np.Inf
+    after_times[last_index:] = max_value
 
     return before_times, after_times
 
-- 
2.43.0


From 952e227adf602b93936a7dfc0406fe86866b066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:09 +0000
Subject: [PATCH 044/199] fix: filter_data_5lag_cython refuses filters of the
 wrong length

---
 mass/core/analysis_algorithms.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 349c025..3d2ff41 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -853,6 +853,9 @@ def filter_data_5lag_cython(
     nPulses = rawdata.shape[0]
     nSamples = rawdata.shape[1]
     filter_length = nSamples - 4
+    if filter_length < 4 or filter_values.shape[0] != filter_length:
+        raise ValueError(f"5-lag filter for {nSamples}-sample records should have length {filter_length} "
+                         f"(at least 4), but it has length {filter_values.shape[0]}")
     if pulses_per_seg <= 0:
         pulse_size_bytes = 16+2*nSamples
         bigblock = 2**22
-- 
2.43.0


From 75b139c06000834f071667536491c8430e5d7960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:09 +0000
Subject: [PATCH 045/199] fix: filter_data_5lag_cython doesn't fail on records
 of all zeros

---
 mass/core/analysis_algorithms.pyx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 3d2ff41..bbd00e3 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -896,6 +896,11 @@ def filter_data_5lag_cython(
         p1 = conv0*(-14.0/70) + conv1*(-7.0/70) + conv3*(7.0/70) + conv4*(14.0/70)
         p2 = conv0*(10.0/70) + conv1*(-5.0/70) + conv2*(-10.0/70) + conv3*(-5.0/70) + conv4*(10.0/70)
 
-        filt_phase[i] = -0.5*p1 / p2
-        filt_value[i] = p0 - 0.25*p1**2 / p2
+        if p2 == 0.0:
+            # No parabola can be fit, e.g., if all samples are zero
+            filt_phase[i] = np.nan
+            filt_value[i] = np.nan
+        else:
+            filt_phase[i] = -0.5*p1 / p2
+            filt_value[i] = p0 - 0.25*p1**2 / p2
     return filt_value, filt_phase
\ No newline at end of file
-- 
2.43.0


From 2a61116739e776aa0b43d5017cea14eb5c2b9e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:09 +0000
Subject: [PATCH 046/199] fix: high_median raises for empty data or the wrong
 number of weights

---
 mass/mathstat/robust.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mass/mathstat/robust.pyx b/mass/mathstat/robust.pyx
index 9ad908b..c9e24b0 100644
--- a/mass/mathstat/robust.pyx
+++ b/mass/mathstat/robust.pyx
@@ -232,10 +232,14 @@ def high_median(x, weights=None, return_index=False):
     x = np.asarray(x)
     sort_idx = x.argsort()  # now x[sort_idx] is sorted
     n = len(x)
+    if n == 0:
+        raise ValueError("high_median(x) requires at least one value in x.")
     if weights is None:
         weights = np.ones(n, dtype=float)
     else:
         weights = np.asarray(weights, dtype=float)
+        if len(weights) != n:
+            raise ValueError(f"high_median(x) requires as many weights ({len(weights)}) as data values ({n}).")
 
     # If possible, use the Cython version _high_median, though it only speeds up
     # by 15 to 20%.
-- 
2.43.0


From e0d47e84fe1d6e64ad44c9c43a8931a2414a87d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:09 +0000
Subject: [PATCH 047/199] fix: Qscale works in double precision and with signed
 indices

---
 mass/mathstat/robust.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/mathstat/robust.pyx b/mass/mathstat/robust.pyx
index c9e24b0..510f57f 100644
--- a/mass/mathstat/robust.pyx
+++ b/mass/mathstat/robust.pyx
@@ -379,7 +379,7 @@ def _choose_trial_val(long long[:] left, long long[:] right, double[:] x, int n)
     cdef Py_ssize_t i
     cdef int chosen_row, chosen_col, ctr_index
 
-    cdef float trial_val
+    cdef double trial_val
     cdef double[:] weights
     cdef double[:] row_median
 
@@ -411,7 +411,7 @@ def _choose_trial_val(long long[:] left, long long[:] right, double[:] x, int n)
 @cython.embedsignature(True)
 @cython.boundscheck(False)  # turn off bounds-checking for entire function
 def _Qscale_subroutine(double[:] x, unsigned int n, unsigned int target_k):
-    cdef unsigned int trial_q_row = 0, trial_q_col = 0
+    cdef Py_ssize_t trial_q_row = 0, trial_q_col = 0
     cdef Py_ssize_t i, counter
     cdef double trial_distance = 0.0
     cdef long long candidates_below_trial_dist
-- 
2.43.0


From d80182d0fbc7eb469809206af3fbf4299385ea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:21 +0000
Subject: [PATCH 048/199] fix: compute_fourier no longer fails, and predicts
 variance in signal units

---
 mass/core/optimal_filtering.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index fe4d327..152903b 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -464,14 +464,18 @@ class FilterMaker:
         noise_psd = np.asarray(self.noise_psd)
 
         shorten = 2  # to use in 5-lag style
-        avg_signal = avg_signal[shorten:-shorten]
         n = len(noise_psd)
         window = 1.0
-        sig_ft = np.fft.rfft(avg_signal * window)
+        sig_ft = np.fft.rfft(avg_signal[shorten:-shorten] * window)
 
         if len(sig_ft) != n - shorten:
             raise ValueError(f"signal real DFT and noise PSD are not the same length ({len(sig_ft)} and {n})")
 
+        if self.noise_autocorr is None:
+            variance_autocorr = np.fft.irfft(noise_psd) / (2 * self.sample_time_sec)
+        else:
+            variance_autocorr = np.asarray(self.noise_autocorr)
+
         # Careful with PSD: "shorten" it by converting into a real space autocorrelation,
         # truncating the middle, and going back to Fourier space
         if shorten > 0:
@@ -484,7 +488,7 @@ class FilterMaker:
         # Band-limit
         if fmax is not None or f_3db is not None:
             freq = np.arange(0, n - shorten, dtype=float) * \
-                0.5 / ((n - 1) * self.sample_time_sec)
+                0.5 / ((n - shorten - 1) * self.sample_time_sec)
             if fmax is not None:
                 sig_ft_weighted[freq > fmax] = 0.0
             if f_3db is not None:
@@ -495,13 +499,7 @@ class FilterMaker:
         self._normalize_5lag_filter(filt_fourier, avg_signal)
 
         # How we compute the uncertainty depends on whether there's a noise autocorrelation result
-        if self.noise_autocorr is None:
-            noise_ft_squared = (len(noise_psd) - 1) / self.sample_time_sec * noise_psd
-            kappa = (np.abs(sig_ft * self.peak)**2 / noise_ft_squared)[1:].sum()
-            variance_fourier = 1. / kappa
-        else:
-            ac = np.array(self.noise_autocorr)[:len(filt_fourier)]
-            variance_fourier = bracketR(filt_fourier, ac) / self.peak**2
+        variance_fourier = bracketR(filt_fourier, variance_autocorr)
         vdv = peak / (8 * np.log(2) * variance_fourier)**0.5
         return Filter(filt_fourier, peak, variance_fourier, vdv, None, None, avg_signal, None, 1 + 2 * shorten,
                       fmax, f_3db, cut_pre, cut_post, "fourier")
-- 
2.43.0


From 97ccc3dd52883fc725190a46bab2fef80da0ebe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:51 +0000
Subject: [PATCH 049/199] fix: 5-lag and ATS filters can be made from a
 whitener without a noise autocorrelation

---
 mass/core/optimal_filtering.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index 152903b..d77d012 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -402,18 +402,21 @@ class FilterMaker:
         shorten = 2
         truncated_signal = avg_signal[shorten:-shorten]
         n = len(truncated_signal)
-        assert len(noise_autocorr) >= n, "Noise autocorrelation vector is too short for signal size"
-
-        noise_corr = noise_autocorr[:n]
-        TS = ToeplitzSolver(noise_corr, symmetric=True)
-        Rinv_sig = TS(truncated_signal)
-        Rinv_1 = TS(np.ones(n))
+        if self.noise_autocorr is None:
+            Rinv_sig = self.whitener.applyWT(self.whitener(truncated_signal))
+            Rinv_1 = self.whitener.applyWT(self.whitener(np.ones(n)))
+        else:
+            assert len(noise_autocorr) >= n, "Noise autocorrelation vector is too short for signal size"
+            noise_corr = noise_autocorr[:n]
+            TS = ToeplitzSolver(noise_corr, symmetric=True)
+            Rinv_sig = TS(truncated_signal)
+            Rinv_1 = TS(np.ones(n))
         filt_noconst = Rinv_1.sum() * Rinv_sig - Rinv_sig.sum() * Rinv_1
 
         band_limit(filt_noconst, self.sample_time_sec, fmax, f_3db)
 
         self._normalize_5lag_filter(filt_noconst, avg_signal)
-        variance = bracketR(filt_noconst, noise_corr)
+        variance = self._filter_variance(filt_noconst)
 
         # Set weights in the cut_pre and cut_post windows to 0
         if cut_pre > 0 or cut_post > 0:
@@ -581,11 +584,18 @@ class FilterMaker:
         filt_dt = filt[1]
         filt_baseline = filt[2]
 
-        variance = bracketR(filt_noconst, self.noise_autocorr)
+        variance = self._filter_variance(filt_noconst)
         vdv = peak / (np.log(2) * 8 * variance)**0.5
         return Filter(filt_noconst, peak, variance, vdv, filt_dt, filt_baseline, avg_signal, dt_model, 1,
                       fmax, f_3db, cut_pre, cut_post, "ats")
 
+    def _filter_variance(self, f: np.ndarray) -> float:
+        """Return the variance of filter `f` applied to noise, according to the noise autocorrelation (or the
+        whitener, if the autocorrelation isn't known)."""
+        if self.noise_autocorr is None:
+            return np.sum(self.whitener.solveWT(f)**2)
+        return bracketR(f, self.noise_autocorr)
+
     def _compute_autocorr(self, cut_pre: int = 0, cut_post: int = 0) -> np.ndarray:
         """Return the noise autocorrelation, if any, cut down by the requested number of values at the start and end.
 
-- 
2.43.0


From ae9078553c14df0f353269e0ea97aa897c1ef149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:51 +0000
Subject: [PATCH 050/199] fix: filters can't be made without pretrigger samples
 to find the signal's baseline

---
 mass/core/optimal_filtering.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index d77d012..a284056 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -641,13 +641,16 @@ class FilterMaker:
         """
         avg_signal = np.array(self.signal_model)
         ns = len(avg_signal)
-        pre_avg = avg_signal[cut_pre:self.n_pretrigger - 1].mean()
 
         if cut_pre < 0 or cut_post < 0:
             raise ValueError(f"(cut_pre,cut_post)=({cut_pre},{cut_post}), but neither can be negative")
         if cut_pre + cut_post >= ns:
             raise ValueError(f"cut_pre+cut_post = {cut_pre + cut_post} but should be < {ns}")
 
+        if cut_pre >= self.n_pretrigger - 1:
+            raise ValueError(f"cut_pre = {cut_pre} leaves no pretrigger samples ({self.n_pretrigger} less 1) to find the baseline")
+        pre_avg = avg_signal[cut_pre:self.n_pretrigger - 1].mean()
+
         # Unless passed in, find the signal's peak value. This is normally peak=(max-pretrigger).
         # If signal is negative-going, however, then peak=(pretrigger-min).
         if self.peak > 0.0:
-- 
2.43.0


From f7f4dc4032a0215243000f007c338f305b545d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:26 +0000
Subject: [PATCH 051/199] fix: filters for negative-going signals are
 normalised by the size of the signal

---
 mass/core/optimal_filtering.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index a284056..a053be2 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -653,6 +653,7 @@ class FilterMaker:
 
         # Unless passed in, find the signal's peak value. This is normally peak=(max-pretrigger).
         # If signal is negative-going, however, then peak=(pretrigger-min).
+        is_negative = False
         if self.peak > 0.0:
             peak_signal = self.peak
         else:
@@ -660,14 +661,14 @@ class FilterMaker:
             b = avg_signal[cut_pre:ns - cut_post].max()
             is_negative = pre_avg - a > b - pre_avg
             if is_negative:
-                peak_signal = a - pre_avg
+                peak_signal = pre_avg - a
             else:
                 peak_signal = b - pre_avg
 
         # avg_signal: normalize to have unit peak
         avg_signal -= pre_avg
 
-        rescale = 1 / np.max(avg_signal)
+        rescale = 1 / np.max(-avg_signal if is_negative else avg_signal)
         avg_signal *= rescale
         avg_signal[:self.n_pretrigger] = 0.0
         avg_signal = avg_signal[cut_pre:ns - cut_post]
-- 
2.43.0


From 45aea55f1b1db6b8b00ed1a8e99d4d4b8faa6ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:19 +0000
Subject: [PATCH 052/199] fix: compute_ats accepts cuts of more than half the
 record

---
 mass/core/optimal_filtering.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index a053be2..6a1872d 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -550,8 +550,6 @@ class FilterMaker:
         assert ns == len(dt_model)
         if cut_pre < 0 or cut_post < 0:
             raise ValueError(f"(cut_pre,cut_post)=({cut_pre},{cut_post}), but neither can be negative")
-        if cut_pre + cut_post >= ns:
-            raise ValueError(f"cut_pre+cut_post = {cut_pre + cut_post} but should be < {ns}")
 
         MT = np.vstack((avg_signal, dt_model, np.ones(ns)))
 
-- 
2.43.0


From fb68a9fab5719c0268a5d5f62a848ddc87d27667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:19 +0000
Subject: [PATCH 053/199] fix: ToeplitzWhitener of order zero doesn't divide
 the first value twice

---
 mass/core/optimal_filtering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index 6a1872d..5cd25f6 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -89,7 +89,7 @@ class ToeplitzWhitener:
             for j in range(i):
                 y[i] -= y[j] * self.theta[i - j]
             y[i] /= self.theta[0]
-        for i in range(self.q, N):
+        for i in range(max(self.q, 1), N):
             for j in range(i - self.q, i):
                 y[i] -= y[j] * self.theta[i - j]
             y[i] /= self.theta[0]
@@ -121,7 +121,7 @@ class ToeplitzWhitener:
             for j in range(i):
                 y[i] -= y[j] * self.phi[i - j]
             y[i] /= self.phi[0]
-        for i in range(self.p, N):
+        for i in range(max(self.p, 1), N):
             for j in range(i - self.p, i):
                 y[i] -= y[j] * self.phi[i - j]
             y[i] /= self.phi[0]
-- 
2.43.0


From 50529a331ffafe136a8ae3cc6920b2fda243fcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:10 +0000
Subject: [PATCH 054/199] fix: ATS filtering with a transform uses the records
 of one segment

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 2e1d3e2..5306116 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1453,7 +1453,7 @@ class MicrocalDataSet:  # noqa: PLR0904
         data = self.data[first:end]
         if transform is not None:
             ptmean = self.p_pretrig_mean[first:end]
-            data = transform(self.data - ptmean.reshape((seg_size, 1)))
+            data = transform(data - ptmean.reshape((seg_size, 1)))
         conv0 = np.dot(data[:, 1:], filter_values)
         conv1 = np.dot(data[:, 1:], filter_AT)
 
-- 
2.43.0


From 40bb6b986f7a1f566636717d9b7b4100e8e91f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:10 +0000
Subject: [PATCH 055/199] fix: filter_data with 5-lag filters doesn't ignore
 the transform

---
 mass/core/channel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 5306116..adb5d20 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1315,7 +1315,7 @@ class MicrocalDataSet:  # noqa: PLR0904
             return
 
         if use_cython is None:
-            use_cython = self._filter_type == "5lag"
+            use_cython = self._filter_type == "5lag" and transform is None
 
         if self.filter is not None:
             filter_values = self.filter.values
@@ -1325,6 +1325,8 @@ class MicrocalDataSet:  # noqa: PLR0904
         if use_cython:
             if self._filter_type == "ats":
                 raise ValueError("Cannot perform Arrival-Time-Safe filtering in Cython yet")
+            if transform is not None:
+                raise ValueError("Cannot transform the data when filtering in Cython")
             fdata = mass.core.analysis_algorithms.filter_data_5lag_cython
             fv, fp = fdata(self.alldata, filter_values)
             self.p_filt_value[:] = fv[:]
-- 
2.43.0


From 20d6ad28872d211f4c7b0084748489217c5ccbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 056/199] fix: reopening a data set restores the stored optimal
 filter instead of recomputing it differently

A 5-lag or Fourier filter was recomputed from the average pulse with other settings (no cut_pre/cut_post, another peak, pretrigger_ignore_samples=0),
and an ATS filter lost its models and constant-estimator.
---
 mass/core/channel.py | 43 +++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index adb5d20..9ab4fda 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -774,26 +774,20 @@ class MicrocalDataSet:  # noqa: PLR0904
                                     sample_time_sec=self.timebase, peak=modelpeak)
                 self.filter = maker.compute_ats(fmax=fmax, f_3db=f_3db)
         if version == 2:
-            if filter_type == "ats":
-                values = filter_group["values"][:]
-                dt_values = filter_group["dt_values"][:]
-                variance = filter_group["values"].attrs.get("variance", 0.0)
-                vdv = filter_group["values"].attrs.get("predicted_v_over_dv", 0.0)
-                peak = filter_group["values"].attrs.get("nominal_peak", 0.0)
-                self.filter = mass.Filter(values, peak, variance, vdv, dt_values, None, None, None,
-                                          1, fmax=fmax, f_3db=f_3db, _filter_type="ats")
-
-            else:
-                modelpeak = np.max(self.average_pulse)
-                maker = FilterMaker(self.average_pulse[:], self.nPresamples - self.pretrigger_ignore_samples,
-                                    self.noise_autocorr, self.noise_psd,
-                                    sample_time_sec=self.timebase, peak=modelpeak)
-                if filter_type == "5lag":
-                    self.filter = maker.compute_5lag(fmax=fmax, f_3db=f_3db)
-                elif filter_type == "fourier":
-                    self.filter = maker.compute_fourier(fmax=fmax, f_3db=f_3db)
-                else:
-                    raise Exception(f"filter_type={filter_type}, must be `ats`, `5lag`, or `fourier`")
+            if filter_type not in {"ats", "5lag", "fourier"}:
+                raise Exception(f"filter_type={filter_type}, must be `ats`, `5lag`, or `fourier`")
+            vectors = {}
+            for name in ("dt_values", "const_values", "signal_model", "dt_model"):
+                vectors[name] = filter_group[name][:] if name in filter_group else None
+            attrs = filter_group["values"].attrs
+            self.filter = mass.Filter(
+                filter_group["values"][:], attrs.get("nominal_peak", 0.0), attrs.get("variance", 0.0),
+                attrs.get("predicted_v_over_dv", 0.0), vectors["dt_values"], vectors["const_values"],
+                vectors["signal_model"], vectors["dt_model"],
+                convolution_lags=int(attrs.get("convolution_lags", 1 if filter_type == "ats" else 5)),
+                fmax=fmax, f_3db=f_3db,
+                cut_pre=int(attrs.get("cut_pre", 0)), cut_post=int(attrs.get("cut_post", 0)),
+                _filter_type=filter_type)
 
         self._filter_type = filter_type
 
@@ -1143,8 +1137,13 @@ class MicrocalDataSet:  # noqa: PLR0904
         vec.attrs["nominal_peak"] = self.filter.nominal_peak
         vec.attrs["variance"] = self.filter.variance
         vec.attrs["predicted_v_over_dv"] = self.filter.predicted_v_over_dv
-        if self.filter._filter_type == "ats":
-            h5grp.create_dataset("dt_values", data=self.filter.dt_values)
+        vec.attrs["convolution_lags"] = self.filter.convolution_lags
+        vec.attrs["cut_pre"] = self.filter.cut_pre
+        vec.attrs["cut_post"] = self.filter.cut_post
+        for name in ("dt_values", "const_values", "signal_model", "dt_model"):
+            vector = getattr(self.filter, name)
+            if vector is not None:
+                h5grp.create_dataset(name, data=vector)
 
     @property
     def shortname(self):
-- 
2.43.0


From a1f86415af5bc2d4ca308c05359aa5b106286b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 057/199] fix: saved auto-cuts keep their lower limits and
 noise statistics when the data set is reopened

---
 mass/core/channel.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 9ab4fda..dba2ef8 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2235,6 +2235,11 @@ class MicrocalDataSet:  # noqa: PLR0904
         for attrname in ("peak_time_ms", "rise_time_ms", "pretrigger_rms",
                          "postpeak_deriv"):
             g.attrs[attrname] = cuts.cuts_prm[attrname][1]
+            lower = cuts.cuts_prm[attrname][0]
+            if lower is not None:
+                g.attrs[f"{attrname}_lower"] = lower
+        g.attrs["pretrig_rms_median"] = cuts._pretrig_rms_median
+        g.attrs["pretrig_rms_sigma"] = cuts._pretrig_rms_sigma
 
     def __load_auto_cuts(self):
         """Load the results of auto-cuts, if any, from HDF5."""
@@ -2246,7 +2251,10 @@ class MicrocalDataSet:  # noqa: PLR0904
         cuts = mass.AnalysisControl()
         for attrname in ("peak_time_ms", "rise_time_ms", "pretrigger_rms",
                          "postpeak_deriv"):
-            cuts.cuts_prm[attrname] = (None, g.attrs[attrname])
+            cuts.cuts_prm[attrname] = (g.attrs.get(f"{attrname}_lower", None), g.attrs[attrname])
+        if "pretrig_rms_median" in g.attrs:
+            cuts._pretrig_rms_median = g.attrs["pretrig_rms_median"]
+            cuts._pretrig_rms_sigma = g.attrs["pretrig_rms_sigma"]
         self.saved_auto_cuts = cuts
 
     @_add_group_loop()
-- 
2.43.0


From 0538eb4a3dc754d0e5038ba2232cb9e67af51a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 058/199] fix: a reopened data set remembers the
 pretrigger_ignore, cut_pre, cut_post and peak sample used to summarize it

They silently reverted to 0, so that later analysis steps (average pulse, filters) depended on whether the file had been closed.
---
 mass/core/channel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index dba2ef8..24cd0dd 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -729,6 +729,9 @@ class MicrocalDataSet:  # noqa: PLR0904
 
         if "peak_samplenumber" in self.p_peak_index.attrs:
             self.peak_samplenumber = self.p_peak_index.attrs["peak_samplenumber"]
+        for name in ("pretrigger_ignore_samples", "cut_pre", "cut_post"):
+            if name in self.p_pretrig_mean.attrs:
+                setattr(self, name, int(self.p_pretrig_mean.attrs[name]))
 
         # Other vectors needed per-channel
         self.average_pulse = h5grp.require_dataset(
@@ -937,6 +940,10 @@ class MicrocalDataSet:  # noqa: PLR0904
 
         self.cut_pre = cut_pre
         self.cut_post = cut_post
+        for name in ("pretrigger_ignore_samples", "cut_pre", "cut_post"):
+            self.p_pretrig_mean.attrs[name] = getattr(self, name)
+        if self.peak_samplenumber is not None:
+            self.p_peak_index.attrs["peak_samplenumber"] = self.peak_samplenumber
 
         if use_cython:
             if self.peak_samplenumber is None:
-- 
2.43.0


From e8a7fd183c8eb5f3150e0f68f31f0a37b06b454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 059/199] fix: a reopened data set has its drift_correct_info

---
 mass/core/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 24cd0dd..5a696cb 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -807,7 +807,8 @@ class MicrocalDataSet:  # noqa: PLR0904
             self.calibration[k] = EnergyCalibration.load_from_hdf5(hdf5_cal_group, k)
 
     def __load_corrections(self):
-        # drift correction should be loaded here, but I don't think it is loaded at all, here or anywhere!
+        if "slope" in self.p_filt_value_dc.attrs:
+            self.drift_correct_info = dict(self.p_filt_value_dc.attrs)
         if "phase_correction" in self.hdf5_group:
             self.phaseCorrector = phase_correct.PhaseCorrector.fromHDF5(
                 self.hdf5_group, name="phase_correction")
-- 
2.43.0


From 52e558648bcc0a9b329155f6bb118823a25f7d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 060/199] fix: overwriting a saved PhaseCorrector removes the
 corrections of the previous one

If the new one had fewer peaks, the old one's extra correction curves were loaded with it.
---
 mass/core/phase_correct.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mass/core/phase_correct.py b/mass/core/phase_correct.py
index c6e3f40..fdda8ee 100644
--- a/mass/core/phase_correct.py
+++ b/mass/core/phase_correct.py
@@ -32,6 +32,10 @@ class PhaseCorrector:
                 else:
                     raise AttributeError(f"Cannot overwrite phase correction dataset '{name}'")
             group[name] = vector
+        if overwrite:
+            for old in list(group):
+                if old.startswith("correction_"):
+                    del group[old]
         h5group_update("phase_uniformifier_x", self.phase_uniformifier_x)
         h5group_update("phase_uniformifier_y", self.phase_uniformifier_y)
         h5group_update("uncorrected_name", self.uncorrectedName)
-- 
2.43.0


From a4671cbb43cba2bcd3f91d003bcc827f1c0db676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 061/199] fix: phase_correct does not sort the caller's
 ph_peaks in place

---
 mass/core/phase_correct.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mass/core/phase_correct.py b/mass/core/phase_correct.py
index fdda8ee..382a4be 100644
--- a/mass/core/phase_correct.py
+++ b/mass/core/phase_correct.py
@@ -90,8 +90,7 @@ def phase_correct(phase, pheight, ph_peaks=None, method2017=True, kernel_width=N
         ph_peaks = _find_peaks_heuristic(pheight)
     if len(ph_peaks) <= 0:
         raise ValueError("Could not phase_correct because no peaks found")
-    ph_peaks = np.asarray(ph_peaks)
-    ph_peaks.sort()
+    ph_peaks = np.sort(ph_peaks)
 
     # Compute a correction function at each line in ph_peaks
     corrections = []
-- 
2.43.0


From abef95cc8ec94efdfc1760e6c949e4198f2f2810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 062/199] fix: phase_correct records the name of the attribute
 it actually corrected

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 5a696cb..3b0e467 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1829,7 +1829,7 @@ class MicrocalDataSet:  # noqa: PLR0904
         self.phaseCorrector = phase_correct.phase_correct(self.p_filt_phase[good],
                                                           getattr(self, attr)[good],
                                                           ph_peaks=ph_peaks, method2017=method2017, kernel_width=kernel_width,
-                                                          indicatorName="p_filt_phase", uncorrectedName="p_filt_value_dc")
+                                                          indicatorName="p_filt_phase", uncorrectedName=attr)
 
         self.p_filt_phase_corr[:] = self.phaseCorrector.phase_uniformifier(self.p_filt_phase[:])
         self.p_filt_value_phc[:] = self.phaseCorrector(self.p_filt_phase[:], getattr(self, attr)[:])
-- 
2.43.0


From 27cb0755c4d1aa8d454cf595d427d196a90b382b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 063/199] fix: time_drift_correct uses its sec_per_degree,
 pulses_per_degree and max_degrees arguments

---
 mass/core/channel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 3b0e467..8250ff7 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2096,6 +2096,9 @@ class MicrocalDataSet:  # noqa: PLR0904
             g = np.logical_and(g, np.abs(attr[:] / pk - 1) < 0.5)
             w = max(pk / 3000., 1.0)
             info = time_drift_correct(self.p_timestamp[g], attr[g], w,
+                                      sec_per_degree=sec_per_degree,
+                                      pulses_per_degree=pulses_per_degree,
+                                      max_degrees=max_degrees,
                                       limit=[0.5 * pk, 2 * pk])
             tnorm = info["normalize"](self.p_timestamp[:])
             corrected = attr[:] * (1 + info["model"](tnorm))
-- 
2.43.0


From 33b695af97436c8964c62197d5dbbe51a308368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 064/199] fix: smart_cuts gives the same cuts each time it is
 run on the same data

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 8250ff7..d838ea5 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2278,7 +2278,7 @@ class MicrocalDataSet:  # noqa: PLR0904
                                self.p_min_value[:n_trainings], self.p_postpeak_deriv[:n_trainings]])
             mdata = mdata.transpose()
 
-            robust = sklearn.covariance.MinCovDet().fit(mdata)
+            robust = sklearn.covariance.MinCovDet(random_state=0).fit(mdata)
 
             # It excludes only extreme outliers.
             mdata = np.vstack([self.p_pretrig_mean[...], self.p_pretrig_rms[...],
-- 
2.43.0


From 7880713fd4e2345bcecb8ce2c85d27f08e79bd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:53 +0000
Subject: [PATCH 065/199] fix: set_chan_bad accepts a reason with non-ASCII
 characters

It raised UnicodeEncodeError, after marking the channel bad in memory only; inside a group loop that aborted the step for all other channels.
---
 mass/core/channel_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index e339276..a23b557 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -466,7 +466,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             self._bad_channums[channum] = new_comment
             LOG.warning('WARNING: Chan %s flagged bad because %s', channum, comment)
             self.hdf5_file[f"chan{channum}"].attrs['why_bad'] = \
-                np.asarray(new_comment, dtype=np.bytes_)
+                np.array([c.encode() for c in new_comment], dtype=np.bytes_)
 
     def set_all_chan_good(self):
         """Set all channels to be good."""
-- 
2.43.0


From a4ebca3ecff4538dc7b68ba34aa7d6bf26240736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:53 +0000
Subject: [PATCH 066/199] fix: a reopened noise-only group remembers which
 channels were marked bad

---
 mass/core/channel_group.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index a23b557..552847d 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -353,6 +353,9 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             noise = NoiseRecords(fname, records_are_continuous=noise_is_continuous)
             hdf5_group = self.hdf5_noisefile.require_group(f"chan{noise.channum}")
             hdf5_group.attrs['filename'] = fname
+            if 'why_bad' in hdf5_group.attrs:
+                self._bad_channums[noise.channum] = [comment.decode() for comment in
+                                                     hdf5_group.attrs['why_bad']]
             noise.set_hdf5_group(hdf5_group)
 
             dset = MicrocalDataSet(noise.__dict__, hdf5_group=hdf5_group)
-- 
2.43.0


From 5575757c14d8c79adfce3b6ab30d54c7c0a4a458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:53 +0000
Subject: [PATCH 067/199] fix: laplace_entropy of data with a gap of more than
 ~700 kernel widths

It divided by an underflowed exponential and raised ZeroDivisionError.
---
 mass/mathstat/entropy.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mass/mathstat/entropy.pyx b/mass/mathstat/entropy.pyx
index d776d96..bda3d81 100644
--- a/mass/mathstat/entropy.pyx
+++ b/mass/mathstat/entropy.pyx
@@ -90,14 +90,14 @@ cdef double laplace_entropy_array(np.ndarray[DTYPE_t, ndim=1] x, double w=1.0):
     for i in range(N-2, -1, -1):
         d[i] = e[i]*d[i+1] + stepsize
 
-    cdef double H, dp, r, r1, e2, A, B
+    cdef double H, dp, r1, e2, A, B
     H = w*d[0]*(1-log(d[0])) + w*c[N-1]*(1-log(c[N-1]))
     for i in range(N-1):
         dp = d[i+1]*e[i]
-        r = sqrt(c[i]/dp)
-        r1 = c[i]/d[i+1]
-        e2 = sqrt(e[i])
-        H += 4*w*sqrt(c[i]*dp)*atan((e2-1.0/e2)*r1**0.5/(r1+1.0))
+        if e[i] > 0:  # else the gap is so large (over 700 kernel widths) that this term is zero
+            r1 = c[i]/d[i+1]
+            e2 = sqrt(e[i])
+            H += 4*w*sqrt(c[i]*dp)*atan((e2-1.0/e2)*r1**0.5/(r1+1.0))
         H += w*(dp-c[i])*(log(c[i]+dp)-1)
         A, B = d[i+1], c[i]*e[i]
         H -= w*(A-B)*(log(A+B)-1)
-- 
2.43.0


From f2f81d20e364f5b928bfe1ab7f281fd760bdf289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:49 +0000
Subject: [PATCH 068/199] fix: nested ChannelGroup.includeBad() contexts (e.g.
 using whyChanBad inside one) restore the outer setting

---
 mass/off/channels.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 5b4dcb1..dbfcb7d 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1130,6 +1130,7 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
         else:
             self.experimentStateFile = experimentStateFile
         self._includeBad = False
+        self._includeBadOuter = []
         self._channelClass = channelClass
         self.loadChannels()
         self._default_cut_recipe_name = self.firstGoodChannel()._default_cut_recipe_name
@@ -1295,10 +1296,11 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
         return self
 
     def __enter__(self):
+        self._includeBadOuter.append(self._includeBad)
         self._includeBad = self._includeBadDesired
 
     def __exit__(self, *args):
-        self._includeBad = False
+        self._includeBad = self._includeBadOuter.pop()
         self._includeBadDesired = False
 
     def histsToHDF5(self, h5File, binEdges, attr="energy", cutRecipeName=None):
@@ -1544,6 +1546,7 @@ class ChannelGroupFromNpArrays(ChannelGroup):
         self.verbose = verbose
         self.experimentStateFile = experimentStateFile
         self._includeBad = False
+        self._includeBadOuter = []
         for ds in channels:
             self[ds.channum] = ds
         self._default_cut_recipe_name = self.firstGoodChannel()._default_cut_recipe_name
-- 
2.43.0


From 173603fbe33da6cc8867e22da2cfa981dde8a0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:49 +0000
Subject: [PATCH 069/199] fix: ChannelGroup.cutSetDefault raised AttributeError
 instead of setting the default cut of its channels

---
 mass/off/channels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index dbfcb7d..6beeb14 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1410,7 +1410,8 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
 
     def cutSetDefault(self, cutRecipeName):
         assert cutRecipeName.startswith("cut")
-        assert cutRecipeName in self.recipes.keys()
+        for ds in self.values():
+            assert cutRecipeName in ds.recipes.keys(), f"{ds} lacks cut recipe {cutRecipeName}"
         self._default_cut_recipe_name = cutRecipeName
         for ds in self.values():
             ds.cutSetDefault(cutRecipeName)
-- 
2.43.0


From 09a58df181377564edb69ac6a488531bea2bc332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:21 +0000
Subject: [PATCH 070/199] fix: experiment state times were held as float64,
 misplacing records within 256 ns of a state's start

---
 mass/off/experiment_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/experiment_state.py b/mass/off/experiment_state.py
index 2b779a7..26a70f0 100644
--- a/mass/off/experiment_state.py
+++ b/mass/off/experiment_state.py
@@ -21,7 +21,7 @@ class ExperimentStateFile:
         self.excludeStates = excludeStates
         self.parse_start = 0
         self.allLabels = []
-        self.unixnanos = np.zeros(0)
+        self.unixnanos = np.zeros(0, dtype=np.int64)  # floats cannot hold the time to better than 256 ns
         if _parse:
             if self.filename is None:
                 raise Exception("pass filename or datasetFilename or _parse=False")
-- 
2.43.0


From 97f28978746116905c3e8bb27f92d407d8393864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:21 +0000
Subject: [PATCH 071/199] fix: excludeStates="auto" is decided by all states in
 the file, not only those present when it was first read

---
 mass/off/experiment_state.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mass/off/experiment_state.py b/mass/off/experiment_state.py
index 26a70f0..ff973a5 100644
--- a/mass/off/experiment_state.py
+++ b/mass/off/experiment_state.py
@@ -79,15 +79,16 @@ class ExperimentStateFile:
 
     def applyExcludesToLabels(self, allLabels):
         """
-        Recalculate self.excludeStates (possibly).
         Return a list of state labels that is unique, and contains all entries in allLabels except those in self.excludeStates
         order in the returned list is that of first appearance in allLabels
         """
-        if self.excludeStates == "auto":
-            self.excludeStates = self.calculateAutoExcludes()
+        excludeStates = self.excludeStates
+        if excludeStates == "auto":
+            # Don't store this, because it can change when states are added to the file.
+            excludeStates = self.calculateAutoExcludes()
         r = []
         for label in allLabels:
-            if label in self.excludeStates or label in r:
+            if label in excludeStates or label in r:
                 continue
             r.append(label)
         return r
-- 
2.43.0


From 0d990ce89a2714c602174c5f2e620fb8a3d6601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:21 +0000
Subject: [PATCH 072/199] fix: updating a statesDict extends the state in
 force, also if it is repeated or excluded

---
 mass/off/experiment_state.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/mass/off/experiment_state.py b/mass/off/experiment_state.py
index ff973a5..bd1ca94 100644
--- a/mass/off/experiment_state.py
+++ b/mass/off/experiment_state.py
@@ -113,18 +113,7 @@ class ExperimentStateFile:
         # if the statesDict already exists, and there are no new states, update the active state and return the statesDict.
         if len(statesDict.keys()) > 0 and len(newLabels) == 0:
             assert i0_allLabels > 0
-            for k in statesDict.keys():
-                last_key = k
-                s = statesDict[last_key]
-            if isinstance(s, slice):
-                # set the slice from the start of the state to the last new record
-                s2 = slice(s.start, i0_unixnanos + len(unixnanos))
-            if isinstance(s, list):
-                s_ = s[-1]  # get last instance of same state
-                # set the slice from the start of the state to the last new record
-                s[-1] = slice(s_.start, i0_unixnanos + len(unixnanos))
-                s2 = s
-            statesDict[k] = s2
+            self._extendActiveState(statesDict, i0_allLabels, i0_unixnanos + len(unixnanos))
             return statesDict
 
         # unixnanos = new record timestamps
@@ -136,11 +125,7 @@ class ExperimentStateFile:
         # the state that was active last time calcStatesDict was called may need special handling
         if len(statesDict.keys()) > 0 and len(newLabels) > 0:
             assert i0_allLabels > 0
-            for k in statesDict.keys():
-                last_key = k
-            s = statesDict[last_key]
-            s2 = slice(s.start, inds[0])
-            statesDict[k] = s2
+            self._extendActiveState(statesDict, i0_allLabels, inds[0])
         # iterate over self.allLabels because it corresponds to self.unixnanos
         for i, label in enumerate(newLabels):
             if label not in self.unaliasedLabels:
@@ -168,6 +153,21 @@ class ExperimentStateFile:
         self._preventAliasState = True
         return statesDict
 
+    def _extendActiveState(self, statesDict, i0_allLabels, stop):
+        """
+        Extend the state that was active when statesDict was calculated (i.e., the one that started with
+        the label before i0_allLabels, unless that label is excluded) up to record number stop.
+        """
+        label = self.allLabels[i0_allLabels - 1]
+        if label not in self.unaliasedLabels:
+            return
+        aliasedLabel = self.labelAliasesDict.get(label, label)
+        v = statesDict[aliasedLabel]
+        if isinstance(v, list):
+            statesDict[aliasedLabel] = v[:-1] + [slice(v[-1].start, stop)]
+        else:
+            statesDict[aliasedLabel] = slice(v.start, stop)
+
     def __repr__(self):
         return "ExperimentStateFile: " + self.filename
 
-- 
2.43.0


From e7c35d223e58e35dbd4e3c94574c9bae898870c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:21 +0000
Subject: [PATCH 073/199] fix: ChannelGroup.refreshFromFiles assigns known
 records to states that are learned of later

---
 mass/off/channels.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 6beeb14..5e93420 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1196,7 +1196,6 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
         to be called occasionally when running something that updates in real time
         """
         ds = self.firstGoodChannel()
-        i0_allLabels = len(self.experimentStateFile.allLabels)
         n_old_labels = len(self.experimentStateFile.labels)
         self.experimentStateFile.parse()
         n_new_labels = len(self.experimentStateFile.labels) - n_old_labels
@@ -1204,8 +1203,8 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
         for ds in self.values():
             i0_unixnanos = len(ds)
             ds.offFile._updateMmap()  # will update nRecords by mmapping more data in the offFile if available
-            ds._statesDict = self.experimentStateFile.calcStatesDict(
-                ds.unixnano[i0_unixnanos:], ds.statesDict, i0_allLabels, i0_unixnanos)
+            # Assign all records anew, because new states can start before the last known record
+            ds._statesDict = self.experimentStateFile.calcStatesDict(ds.unixnano)
             n_new_pulses_dict[ds.channum] = len(ds) - i0_unixnanos
         return n_new_labels, n_new_pulses_dict
 
-- 
2.43.0


From 23f436b684703345830c6913d2180e1e4c13e61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:21 +0000
Subject: [PATCH 074/199] fix: experiment states are stored with the code of
 their category, also if an earlier analysis registered the categories

---
 mass/core/channel.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index d838ea5..70cc11d 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1063,8 +1063,11 @@ class MicrocalDataSet:  # noqa: PLR0904
         slicedict = esf.calcStatesDict(nano)
 
         state_codes = np.zeros(self.nPulses, dtype=np.uint32)
-        for id, state in enumerate(slicedict.keys()):
-            slices = slicedict[state]
+        codes = self.tes_group.cut_field_categories("state")
+        for state, slices in slicedict.items():
+            if state not in codes:
+                LOG.warning("chan %d: state '%s' is not a registered category; its records are uncategorized", self.channum, state)
+                continue
 
             # Ensure `slices` is a list of slices, even if it's a single slice
             if not isinstance(slices, list):
@@ -1072,7 +1075,7 @@ class MicrocalDataSet:  # noqa: PLR0904
 
             # Assign codes for each slice in the list
             for slice in slices:
-                state_codes[slice.start:slice.stop] = id + 1
+                state_codes[slice.start:slice.stop] = codes[state]
 
         self.cuts.cut("state", state_codes)
 
-- 
2.43.0


From e630ac185500971384b2c8ef051f508de38629e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:52 +0000
Subject: [PATCH 075/199] fix: evaluating a CubicSpline leaves the shape of the
 caller's array alone

---
 mass/mathstat/interpolate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index 69c9d3c..9bca9a2 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -124,8 +124,7 @@ class CubicSpline:
         x = np.asarray(x)
         if x.size == 0:
             return np.array([])
-        elif x.size == 1:
-            x.shape = (1,)
+        x = np.atleast_1d(x)
         result = np.zeros_like(x, dtype=float)
 
         # Find which interval 0,...self._n-2 contains the points (or extrapolates to the points)
-- 
2.43.0


From 2ed703bedc721d0738cf9050d597dfcb8e2be09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:52 +0000
Subject: [PATCH 076/199] fix: the third derivative of a CubicSpline is the
 slope of the second

---
 mass/mathstat/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index 9bca9a2..41b82e9 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -171,7 +171,7 @@ class CubicSpline:
             elif der == 2:
                 result[interp] = a * self._y2[klo] + b * self._y2[khi]
             elif der == 3:
-                result[interp] = (-self._y2[klo] + self._y2[khi]) * dx
+                result[interp] = (-self._y2[klo] + self._y2[khi]) / dx
             elif der > 3:
                 result[interp] = .0
 
-- 
2.43.0


From 5c009fdfdddac1abf4d2f89d96712cbaf5302219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:45 +0000
Subject: [PATCH 077/199] fix: SmoothingSpline finds the least curvature that
 meets the chi-squared constraint, also if that is tiny or none

---
 mass/mathstat/interpolate.py | 52 +++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index 41b82e9..0eb66aa 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -518,28 +518,36 @@ class SmoothingSpline:
         if chisq is None:
             chisq = self.Nk
 
-        Dinv = self.err**(-2)  # Vector but stands for diagonals of a diagonal matrix.
-        NTDinv = self.N0.T * Dinv
-        lhs = np.dot(NTDinv, self.N0)
-        rhs = np.dot(self.N0.T, Dinv * self.y)
-
-        def best_params(p):
-            return np.linalg.solve(p * (lhs - self.Omega) + self.Omega, p * rhs)
-
-        def chisq_difference(p, target_chisq):
-            # If curvature is too small, the computation can become singular.
-            # Avoid this by returning a crazy-high chisquared, as needed.
-            try:
-                beta = best_params(p)
-            except np.linalg.LinAlgError:
-                return 1e99
-            ys = np.dot(self.N0, beta)
-            chisq = np.sum(((self.y - ys) / self.err)**2)
-            return chisq - target_chisq
-
-        mincurvature = 1e-20
-        pbest = sp.optimize.brentq(chisq_difference, mincurvature, 1, args=(chisq,))
-        beta = best_params(pbest)
+        # The curve with values `ys` at the knots has second derivatives `y2` at the interior knots with
+        # dot(R, y2) = dot(Q.T, ys). The one that minimizes (curvature*lam + chisq) is found by Reinsch's
+        # equations (see the reference above), which stay well-conditioned even for the smallest curvature.
+        h = np.diff(self.x)
+        Q = np.zeros((self.Nk, self.Nk - 2), dtype=float)
+        R = np.zeros((self.Nk - 2, self.Nk - 2), dtype=float)
+        for j in range(self.Nk - 2):
+            Q[j:j + 3, j] = [1 / h[j], -1 / h[j] - 1 / h[j + 1], 1 / h[j + 1]]
+            R[j, j] = (h[j] + h[j + 1]) / 3
+            if j > 0:
+                R[j - 1, j] = R[j, j - 1] = h[j] / 6
+        DQ = Q * (self.err**2)[:, np.newaxis]
+        QTDQ = np.dot(Q.T, DQ)
+        QTy = np.dot(Q.T, self.y)
+
+        def best_values(loglam):
+            lam = np.exp(loglam)
+            return self.y - lam * np.dot(DQ, np.linalg.solve(R + lam * QTDQ, QTy))
+
+        def chisq_difference(loglam):
+            return np.sum(((self.y - best_values(loglam)) / self.err)**2) - chisq
+
+        # The smallest curvature of all is that of a straight line. If the (weighted) fit of a line
+        # to the data meets the chi-squared constraint, use it.
+        ys = np.polyval(np.polyfit(self.x, self.y, 1, w=1 / self.err), self.x)
+        if np.sum(((self.y - ys) / self.err)**2) > chisq:
+            typical = np.log(np.trace(R) / np.trace(QTDQ))
+            loglam_best = sp.optimize.brentq(chisq_difference, typical - 50, typical + 50)
+            ys = best_values(loglam_best)
+        beta = np.linalg.solve(self.N0, ys)
         self.coeff = self.basis.expand_coeff(beta)
         ys = np.dot(self.N0, beta)
         self.actualchisq = np.sum(((self.y - ys) / self.err)**2)
-- 
2.43.0


From 929d2ecfc5d731ef45eaebbadf6462151caaf9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:45 +0000
Subject: [PATCH 078/199] fix: the derivative of a smoothing spline function is
 that of the same curve

---
 mass/mathstat/interpolate.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index 0eb66aa..66b11ab 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -30,6 +30,7 @@ NaturalBsplineBasis - A tool for expressing a spline basis using B-splines but
 Joe Fowler, NIST
 Created Feb 2014
 """
+import copy
 import numpy as np
 import scipy as sp
 from scipy.interpolate import splev
@@ -601,7 +602,9 @@ class SmoothingSplineFunction(SmoothingSpline, Function):
     def derivative(self, der=1):
         if self.der + der > 3:
             return ConstantFunction(0)
-        return SmoothingSplineFunction(self.x, self.y, self.dy, self.dx, der=self.der + der)
+        result = copy.copy(self)
+        result.der = self.der + der
+        return result
 
     def __call__(self, x, der=0):
         if self.der + der > 3:
@@ -636,7 +639,9 @@ class GPRSplineFunction(GPRSpline, Function):
     def derivative(self, der=1):
         if self.der + der > 3:
             return ConstantFunction(0)
-        return GPRSplineFunction(self.x, self.y, self.dy, self.dx, der=self.der + der)
+        result = copy.copy(self)
+        result.der = self.der + der
+        return result
 
     def __call__(self, x, der=0):
         if self.der + der > 3:
-- 
2.43.0


From e265bb60bd27f82b064c65bd85719d2386de5295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:45 +0000
Subject: [PATCH 079/199] fix: SmoothingSplineLog leaves its dx argument alone
 and knows its derivatives

---
 mass/mathstat/interpolate.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index 66b11ab..67c4bbe 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -35,7 +35,7 @@ import numpy as np
 import scipy as sp
 from scipy.interpolate import splev
 
-from mass.mathstat.derivative import Function, ConstantFunction
+from mass.mathstat.derivative import Function, ConstantFunction, ExponentialFunction, LogFunction
 
 
 class CubicSpline:
@@ -624,11 +624,12 @@ class SmoothingSplineLog:
         if np.any(x <= 0) or np.any(y <= 0):
             raise ValueError("The x and y data must all be positive to use a SmoothingSplineLog")
         if dx is not None:
-            dx /= x
-        self.linear_model = SmoothingSpline(np.log(x), np.log(y), dy / y, dx, maxchisq=maxchisq)
+            dx = dx / x
+        self.linear_model = SmoothingSplineFunction(np.log(x), np.log(y), dy / y, dx, maxchisq=maxchisq)
+        self._function = ExponentialFunction() << self.linear_model << LogFunction()
 
     def __call__(self, x, der=0):
-        return np.exp(self.linear_model(np.log(x), der=der))
+        return self._function(x, der=der)
 
 
 class GPRSplineFunction(GPRSpline, Function):
-- 
2.43.0


From 5872f9247fbce529986910af2af2084e8c06a411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:45 +0000
Subject: [PATCH 080/199] fix: GPRSpline.variance accepts a scalar

---
 mass/mathstat/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index 67c4bbe..7da5187 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -343,7 +343,7 @@ class GPRSpline(CubicSpline):
         This equals the diagonal of `self.covariance(xtest)`, but for large test sets,
         this method computes only the diagonal and should therefore be faster."""
         v = []
-        for x in np.asarray(xtest):
+        for x in np.atleast_1d(xtest):
             Ktest = self.sigmaf**2 * k_spline(x, self.x)
             LinvKtest = np.linalg.solve(self.L, Ktest)
             cov_ftest = self.sigmaf**2 * k_spline(x, x) - (LinvKtest**2).sum()
-- 
2.43.0


From a845b24d0613bbab08c164fc5e86acdc0d792f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:45 +0000
Subject: [PATCH 081/199] fix: a number can be added to or multiplied with a
 Function from the right

---
 mass/mathstat/derivative.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mass/mathstat/derivative.py b/mass/mathstat/derivative.py
index a338e3a..b23d9a1 100644
--- a/mass/mathstat/derivative.py
+++ b/mass/mathstat/derivative.py
@@ -47,6 +47,8 @@ class Function:
         return NotImplemented(">> is not implemented.")
 
     def __add__(self, other):
+        if isinstance(other, (int, float)):
+            other = ConstantFunction(other)
         return Summation(self, other)
 
     def __radd__(self, other):
@@ -63,6 +65,8 @@ class Function:
         raise NotImplementedError("- is not implemented.")
 
     def __mul__(self, other):
+        if isinstance(other, (int, float)):
+            other = ConstantFunction(other)
         return Multiplication(self, other)
 
     def __rmul__(self, other):
-- 
2.43.0


From 38b4803bc740f648b769aab5bbfe97ebdc568578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:23 +0000
Subject: [PATCH 082/199] fix: remove_cal_point_energy removes the points it
 should when there is more than one

---
 mass/calibration/energy_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index bef0378..bd2f1bf 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -317,7 +317,7 @@ class EnergyCalibration:  # noqa: PLR0904
         """Remove cal points at energies with <de> of <energy>"""
         idxs = np.nonzero(np.abs(self._energies - energy) < de)[0]
 
-        for idx in idxs:
+        for idx in idxs[::-1]:  # Remove the last first, so the others keep their index
             self._remove_cal_point_idx(idx)
 
     def add_cal_point(self, pht, energy, name="", pht_error=None, e_error=None, overwrite=True):
-- 
2.43.0


From 533eaf4c54cd8c5dafeb16cf1a590bc22eaac51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:23 +0000
Subject: [PATCH 083/199] fix: remove_cal_point_prefix returns the number of
 points removed

---
 mass/calibration/energy_calibration.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index bd2f1bf..723ca1a 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -309,9 +309,12 @@ class EnergyCalibration:  # noqa: PLR0904
 
     def remove_cal_point_prefix(self, prefix):
         """This removes all cal points whose name starts with <prefix>.  Return number removed."""
-        for name in tuple(self._names):
-            if name.startswith(prefix):
-                self.remove_cal_point_name(name)
+        nremoved = 0
+        for idx in range(self.npts - 1, -1, -1):
+            if self._names[idx].startswith(prefix):
+                self._remove_cal_point_idx(idx)
+                nremoved += 1
+        return nremoved
 
     def remove_cal_point_energy(self, energy, de):
         """Remove cal points at energies with <de> of <energy>"""
-- 
2.43.0


From bbcef70644a2f25f24179cc52970121db4e86186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:23 +0000
Subject: [PATCH 084/199] fix: a calibration point that is refused leaves the
 calibration unchanged

---
 mass/calibration/energy_calibration.py | 32 ++++++++++++--------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 723ca1a..8a0bcf4 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -345,8 +345,6 @@ class EnergyCalibration:  # noqa: PLR0904
         will NOT replace but will add to any existing points at the same energy.
         You can prevent overwriting by setting <overwrite>=False.
         """
-        self._model_is_stale = True
-
         # If <energy> is a string and a known spectral feature's name, use it as the name instead
         # Otherwise, it needs to be a numeric type convertible to float.
         # if energy in STANDARD_FEATURES:
@@ -382,26 +380,26 @@ class EnergyCalibration:  # noqa: PLR0904
             update_index = np.abs(energy - self._energies).argmin()
 
         if update_index is None:   # Add a new point
-            self._ph = np.hstack((self._ph, pht))
-            self._energies = np.hstack((self._energies, energy))
-            self._dph = np.hstack((self._dph, pht_error))
-            self._de = np.hstack((self._de, e_error))
-            self._names.append(name)
-        else:
-            self._ph[update_index] = pht
-            self._energies[update_index] = energy
-            self._dph[update_index] = pht_error
-            self._de[update_index] = e_error
-        self.npts = len(self._ph)
+            update_index = self.npts
+        # Store the points only after all are found to be valid: a refused point changes nothing.
+        new_ph, new_energies, new_dph, new_de = (
+            np.hstack((old[:update_index], value, old[update_index + 1:])) for (old, value) in
+            ((self._ph, pht), (self._energies, energy), (self._dph, pht_error), (self._de, e_error)))
 
         # Validate: ph and energies must be monotone increasing
-        order_ph = self._ph.argsort()
-        order_en = self._energies.argsort()
+        order_ph = new_ph.argsort()
+        order_en = new_energies.argsort()
         if not np.all(order_ph == order_en):
-            a = f"PH:     {self._ph[order_ph]}"
-            b = f"Energy: {self._energies[order_ph]}"
+            a = f"PH:     {new_ph[order_ph]}"
+            b = f"Energy: {new_energies[order_ph]}"
             raise Exception(f"Calibration points are not monotone:\n{a}\n{b}")
 
+        self._ph, self._energies, self._dph, self._de = new_ph, new_energies, new_dph, new_de
+        if update_index == self.npts:
+            self._names.append(name)
+        self.npts = len(self._ph)
+        self._model_is_stale = True
+
     @property
     def cal_point_phs(self):
         return self._ph
-- 
2.43.0


From ecba608f4c691e11346b086c573de333f20bee18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:23 +0000
Subject: [PATCH 085/199] fix: a calibration without points can be copied,
 printed and used, also if it once had some

---
 mass/calibration/energy_calibration.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 8a0bcf4..46c2d05 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -435,6 +435,12 @@ class EnergyCalibration:  # noqa: PLR0904
         assert self.npts == len(self._energies)
         assert self.npts == len(self._de)
 
+        if self.npts == 0:  # In the absence of any information at all, we just let E = PH.
+            self._ph2e = Identity()
+            self._e2ph = Identity()
+            self._model_is_stale = False
+            return
+
         self._max_ph = 2 * np.max(self._ph)
         # Compute cal curve inverse and (if GPRSplined, the variance) at these points
         ph = self._ph
-- 
2.43.0


From 78a473820e88658c5950286b283ce4b4e9d5521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:23 +0000
Subject: [PATCH 086/199] fix: every curve type works with one calibration
 point

---
 mass/calibration/energy_calibration.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 46c2d05..59a066a 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -552,10 +552,8 @@ class EnergyCalibration:  # noqa: PLR0904
             e1 = self._energies[0]
             if self.curvename() == "loglog":
                 self._ph2e = e1 * (Identity() / p1)**self.nonlinearity
-            elif self.curvename() in {"gain", "invgain"}:
-                self._ph2e = (e1 / p1) * Identity()
             else:
-                raise Exception(f"curvename={self.curvename()} not implemented for npts=1")
+                self._ph2e = (e1 / p1) * Identity()
 
         elif self.curvename() == "loglog":
             x = np.log(self._ph)
-- 
2.43.0


From 4046b5c1df122f9c4d5da6fd583bb4cf58fb6cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:23 +0000
Subject: [PATCH 087/199] fix: a calibration read from HDF5 has all the points
 and settings of the one saved

---
 mass/calibration/energy_calibration.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 59a066a..fd192cf 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -755,22 +755,24 @@ class EnergyCalibration:  # noqa: PLR0904
         cal_group.attrs['nonlinearity'] = self.nonlinearity
         cal_group.attrs['curvetype'] = self.CURVETYPE[self._curvetype]
         cal_group.attrs['approximate'] = self._use_approximation
+        cal_group.attrs['useGPR'] = self._use_GPR
 
     @classmethod
     def load_from_hdf5(cls, hdf5_group, name):
         cal_group = hdf5_group[name]
         cal = cls(cal_group.attrs['nonlinearity'],
                   cal_group.attrs['curvetype'],
-                  cal_group.attrs['approximate'])
-
-        _names = cal_group["name"][:]
-        _ph = cal_group["ph"][:]
-        _energies = cal_group["energy"][:]
-        _dph = cal_group["dph"][:]
-        _de = cal_group["de"][:]
-
-        for thisname, ph, e, dph, de in zip(_names, _ph, _energies, _dph, _de):
-            cal.add_cal_point(ph, e, thisname.decode(), dph, de)
+                  bool(cal_group.attrs['approximate']),
+                  bool(cal_group.attrs.get('useGPR', True)))
+
+        # The points were valid when saved. Do not use add_cal_point, which would merge any that are close.
+        cal._names = [_name.decode() for _name in cal_group["name"][:]]
+        cal._ph = np.array(cal_group["ph"][:], dtype=float)
+        cal._energies = np.array(cal_group["energy"][:], dtype=float)
+        cal._dph = np.array(cal_group["dph"][:], dtype=float)
+        cal._de = np.array(cal_group["de"][:], dtype=float)
+        cal.npts = len(cal._ph)
+        cal._model_is_stale = True
 
         return cal
 
-- 
2.43.0


From 45d0e751c68ad773b6a7d88c8e1d4b3596f5504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:23 +0000
Subject: [PATCH 088/199] fix: energy2ph_exact of long inputs starts from the
 approximate pulse heights

---
 mass/calibration/energy_calibration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index fd192cf..5b0543a 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -193,8 +193,9 @@ class EnergyCalibration:  # noqa: PLR0904
             self._e2phwarned = True
 
         if len(energy) > 1024:
-            phs = np.array(energy)
-            # Newton methods with a fixed number of iterations.
+            energy = np.asarray(energy, dtype=float)
+            # Newton methods with a fixed number of iterations, starting from the approximate inverse.
+            phs = np.array(self.energy2ph(energy))
             for _ in range(5):
                 phs -= (self(phs) - energy) / self(phs, der=1)
 
-- 
2.43.0


From a21564d73a2da2ebabc18df9fdf5ccf7328f3889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:23 +0000
Subject: [PATCH 089/199] fix: calibration uncertainties of loglog and loggain
 curves are in eV

---
 mass/calibration/energy_calibration.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 5b0543a..c1d4e58 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -483,7 +483,7 @@ class EnergyCalibration:  # noqa: PLR0904
         if self.curvename() == "loglog":
             underlying_spline = PreferredSpline(np.log(ph), np.log(e), de / e, dph / ph)
             self._ph2e = ExponentialFunction() << underlying_spline << LogFunction()
-            cal_uncert = underlying_spline(ph_pts) * underlying_spline.variance(np.log(ph_pts))**0.5
+            cal_uncert = self._ph2e(ph_pts) * underlying_spline.variance(np.log(ph_pts))**0.5
 
         elif self.curvename().startswith("linear"):
             if ("+0" in self.curvename()) and (0.0 not in ph):
@@ -528,8 +528,7 @@ class EnergyCalibration:  # noqa: PLR0904
             underlying_spline = PreferredSpline(ph, lg, d_lg)
             self._ph2e = p * (ExponentialFunction() << (-underlying_spline << p))
             e_pts = self._ph2e(ph_pts)
-            dfdp = underlying_spline(ph_pts, der=1)
-            cal_uncert = underlying_spline.variance(ph_pts)**0.5 * e_pts * np.abs(dfdp)
+            cal_uncert = underlying_spline.variance(ph_pts)**0.5 * e_pts
 
         self._underlying_spline = underlying_spline
         if self._use_GPR:
-- 
2.43.0


From 1f9644896d4ecddd890d34eddbe1ec2203a66a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:23 +0000
Subject: [PATCH 090/199] fix: evaluating an approximate calibration leaves the
 uncertainties of its points alone

---
 mass/calibration/energy_calibration.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index c1d4e58..05c6f45 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -465,21 +465,22 @@ class EnergyCalibration:  # noqa: PLR0904
         if not self._use_GPR:
             PreferredSpline = SmoothingSplineFunction
 
+        # For dy, assume that E and PH errors are uncorrelated.
+        ph, dph, e, de = self._ph, self._dph, self._energies, self._de
+
         # Make sure the errors in both dimensions are reasonable (positive)
-        if (self._dph <= 0.0).any():
-            if (self._dph > 0).any():
-                self._dph[self._dph <= 0.0] = self._dph[self._dph > 0].min()
+        if (dph <= 0.0).any():
+            if (dph > 0).any():
+                dph = np.where(dph <= 0.0, dph[dph > 0].min(), dph)
             else:
-                self._dph = np.zeros_like(self._dph)
-        if (self._de <= 0.0).any():
-            if (self._de > 0).any():
-                self._de[self._de <= 0.0] = self._de[self._de > 0].min()
+                dph = np.zeros_like(dph)
+        if (de <= 0.0).any():
+            if (de > 0).any():
+                de = np.where(de <= 0.0, de[de > 0].min(), de)
             else:
-                self._de = np.zeros_like(self._de)
-
-        # Find transformed data. For dy, assume that E and PH errors are uncorrelated.
-        ph, dph, e, de = self._ph, self._dph, self._energies, self._de
+                de = np.zeros_like(de)
 
+        # Find transformed data.
         if self.curvename() == "loglog":
             underlying_spline = PreferredSpline(np.log(ph), np.log(e), de / e, dph / ph)
             self._ph2e = ExponentialFunction() << underlying_spline << LogFunction()
-- 
2.43.0


From 4fac2f2e39d20221444cb41a85dc6fc81fb69021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:23 +0000
Subject: [PATCH 091/199] fix: ph2energy handles arrays of any dimension and
 leaves its input alone

---
 mass/calibration/energy_calibration.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 05c6f45..1e2c49f 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -148,12 +148,10 @@ class EnergyCalibration:  # noqa: PLR0904
                 return result
             return result.item()
 
-        # Change any inf or NaN results to 0.0 energy.
-        if any(np.isnan(result)):
-            result[np.isnan(result)] = 0.0
-        if any(np.isinf(result)):
-            result[np.isinf(result)] = 0.0
-        return np.array(result)
+        # Change any inf or NaN results to 0.0 energy. (Use a copy, as the result could be the input itself.)
+        result = np.array(result)
+        result[~np.isfinite(result)] = 0.0
+        return result
 
     def energy2ph(self, energy):
         """Convert energy (or array of energies) `energy` to pulse height in arbs.
-- 
2.43.0


From c5a5c8adb8c08ffe2f5986a0e5c3cb2795725423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:23 +0000
Subject: [PATCH 092/199] fix: NaturalBsplineBasis has the natural boundary
 conditions also with 2 or 3 knots

---
 mass/mathstat/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index 7da5187..a187f46 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -415,7 +415,7 @@ class NaturalBsplineBasis:
         coef[id + 1] = 1.0
         if id < 2:
             coef[0] = self.coef_b[id]
-        elif id >= self.Nk - 2:
+        if id >= self.Nk - 2:
             coef[-1] = self.coef_e[self.Nk - id - 1]
         return splev(x, (self.padknots, coef, 3), der=der)
 
-- 
2.43.0


From 608e3c4c1bc494e837f967a8e58f3055a25505b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:23 +0000
Subject: [PATCH 093/199] fix: EnergyCalibration uses the nonlinearity it is
 given

---
 mass/calibration/energy_calibration.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 1e2c49f..6324e5a 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -120,7 +120,6 @@ class EnergyCalibration:  # noqa: PLR0904
         self._model_is_stale = False
         self._e2phwarned = False
         self.nonlinearity = nonlinearity
-        self.set_nonlinearity()
 
     @staticmethod
     def __default_ph2e(x, der=0):
-- 
2.43.0


From 70486a054ad1d229bfcdac023d3df43fc5c44754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:34 +0000
Subject: [PATCH 094/199] fix: the zero of a gain curve is sought above the
 calibration points, where the gain is positive

---
 mass/calibration/energy_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 6324e5a..1e15bf1 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -583,7 +583,7 @@ class EnergyCalibration:  # noqa: PLR0904
             if underlying_spline(trial_phmax) > 0:
                 self._max_ph = trial_phmax
             else:
-                self._max_ph = 0.99 * brentq(underlying_spline, 0, trial_phmax)
+                self._max_ph = 0.99 * brentq(underlying_spline, self._ph.max(), trial_phmax)
 
         elif self.curvename() == "invgain":
             x = self._ph
-- 
2.43.0


From 699736014897f45e1bed7689df802dc23d2041c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:08 +0000
Subject: [PATCH 095/199] fix: an empty list of slices selects no OFF records
 instead of raising an exception

---
 mass/off/channels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 5e93420..5e7cd5f 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -395,7 +395,7 @@ class Channel(CorG):  # noqa: PLR0904
             # and about 2x faster than temporary bool index, which can be found in commit 063bcce
             # make sure s.step is None so my simple length calculation will work
             assert all([isinstance(s, slice) and s.step is None for s in inds])
-            max_length = np.sum([s.stop - s.start for s in inds])
+            max_length = sum([s.stop - s.start for s in inds])
             output_dtype = self.offFile.dtype  # get the dtype to preallocate with
             output_prealloc = np.zeros(max_length, output_dtype)
             ilo, ihi = 0, 0
@@ -428,7 +428,7 @@ class Channel(CorG):  # noqa: PLR0904
         # first
         # relies on short circuiting to not evaluate last clause unless indsOrStates is a list
         if indsOrStates is None or isinstance(indsOrStates, str) or \
-                (isinstance(indsOrStates, list) and isinstance(indsOrStates[0], str)):
+                (isinstance(indsOrStates, list) and len(indsOrStates) > 0 and isinstance(indsOrStates[0], str)):
             # looks like states
             try:
                 inds = self.getStatesIndicies(indsOrStates)
@@ -1506,7 +1506,7 @@ class ChannelFromNpArray(Channel):
             # and about 2x faster than temporary bool index, which can be found in commit 063bcce
             # make sure s.step is None so my simple length calculation will work
             assert all([isinstance(s, slice) and s.step is None for s in inds])
-            max_length = np.sum([s.stop - s.start for s in inds])
+            max_length = sum([s.stop - s.start for s in inds])
             output_dtype = self.a.dtype  # get the dtype to preallocate with
             output_prealloc = np.zeros(max_length, output_dtype)
             ilo, ihi = 0, 0
-- 
2.43.0


From 59c304a43f01c4f7d4e7d7c2745858ffef6d066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:08 +0000
Subject: [PATCH 096/199] fix: energyTimestampLabelToHDF5 handles states of
 several slices, and files without states

---
 mass/off/channels.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 5e7cd5f..57343f2 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -778,22 +778,25 @@ class Channel(CorG):  # noqa: PLR0904
                 energy, unixnano = self.getAttr(["energy", "unixnano"], state, usedCutRecipeName)
                 grp[f"{state}/energy"] = energy
                 grp[f"{state}/unixnano"] = unixnano
-                state_inds = tuple(self.getStatesIndicies(states=[state]))
+                state_inds = self.getStatesIndicies(states=[state])
                 cut_inds_in_state = self.getAttr(usedCutRecipeName, [state], "cutNone")
+
+                def select(x):
+                    return np.hstack([x[:0]] + [x[inds] for inds in state_inds])[cut_inds_in_state]
                 if hasattr(self, "seconds_after_last_external_trigger"):
                     grp[f"{state}/seconds_after_last_external_trigger"] = \
-                        self.seconds_after_last_external_trigger[state_inds][cut_inds_in_state]
+                        select(self.seconds_after_last_external_trigger)
                 if hasattr(self, "seconds_until_next_external_trigger"):
                     grp[f"{state}/seconds_until_next_external_trigger"] = \
-                        self.seconds_until_next_external_trigger[state_inds][cut_inds_in_state]
+                        select(self.seconds_until_next_external_trigger)
                 if hasattr(self, "seconds_from_nearest_external_trigger"):
                     grp[f"{state}/seconds_from_nearest_external_trigger"] = \
-                        self.seconds_from_nearest_external_trigger[state_inds][cut_inds_in_state]
+                        select(self.seconds_from_nearest_external_trigger)
         else:
             energy, unixnano = self.getAttr(
                 ["energy", "unixnano"], slice(None), usedCutRecipeName)
-            grp[f"{state}/energy"] = energy
-            grp[f"{state}/unixnano"] = unixnano
+            grp["energy"] = energy
+            grp["unixnano"] = unixnano
         grp["off_filename"] = self.offFile.filename
         grp["used_cut_recipe_name"] = usedCutRecipeName
 
-- 
2.43.0


From 9c1fb9dd9c81197bf19fa6c56125dcb1dc4ef78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:08 +0000
Subject: [PATCH 097/199] fix: qualityCheckLinefit uses the cut and the
 parameters it is given

---
 mass/off/channels.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 57343f2..6fb7e1c 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -736,8 +736,10 @@ class Channel(CorG):  # noqa: PLR0904
         marks self bad if the fit position is more than toleranceFitSigma*fitSigma away
         from the correct position
         """
-        result = self.linefit(line, attr, states, None, dlo, dhi, binsize, binEdges,
-                              guessParams, cutRecipeName, holdvals)
+        if guessParams is None:
+            guessParams = lmfit.Parameters()
+        result = self.linefit(line, attr, states, dlo=dlo, dhi=dhi, binsize=binsize, binEdges=binEdges, plot=False,
+                              params_fixed=holdvals, cutRecipeName=cutRecipeName, params_update=guessParams)
         fitPos = result.params["peak_ph"].value
         fitSigma = result.params["peak_ph"].stderr
         resolution = result.params["fwhm"].value
-- 
2.43.0


From f4453f0289d1e4a140a27823972e5743c8c05cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:08 +0000
Subject: [PATCH 098/199] fix: qualityCheckDropOneErrors applies the thresholds
 it is given

---
 mass/off/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 6fb7e1c..de60eb6 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -810,7 +810,7 @@ class Channel(CorG):  # noqa: PLR0904
         medianAbsoluteValue = np.median(np.abs(errors))
         k = 1.4826  # https://en.wikipedia.org/wiki/Median_absolute_deviation
         sigma = k * medianAbsoluteValue
-        if thresholdAbsolute is not None:
+        if thresholdSigmaFromMedianAbsoluteValue is not None:
             if maxAbsError > sigma * thresholdSigmaFromMedianAbsoluteValue:
                 self.markBad("qualityCheckDropOneErrors: maximum absolute drop one error {} > theshold {} ({})".format(
                     maxAbsError, sigma * thresholdSigmaFromMedianAbsoluteValue,
-- 
2.43.0


From 8d990f1edd09483171d1dbec80f1e24b3eff83e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:08 +0000
Subject: [PATCH 099/199] fix: linefit works for attributes other than
 energies, when given bin edges

---
 mass/off/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index de60eb6..121240e 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -152,8 +152,8 @@ class CorG:
         bin_centers, counts = self.hist(
             binEdges, attr, states, cutRecipeName, calibration=calibration)
         # print(f"counts.size={counts.size},counts.sum()={counts.sum()}")
+        params = model.guess(counts, bin_centers=bin_centers, dph_de=1)
         if attr_is_energy:
-            params = model.guess(counts, bin_centers=bin_centers, dph_de=1)
             params["dph_de"].set(1.0, vary=False)
             unit_str = "eV"
         if calibration is None:
-- 
2.43.0


From 653307d37c3ae5d421e21f74cd02e5599fe7d1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:48 +0000
Subject: [PATCH 100/199] fix: the OFF files of one family do not include those
 of another whose name starts with it

---
 mass/off/channels.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 121240e..2549890 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1105,6 +1105,8 @@ def getOffFileListFromOneFile(filename, maxChans=None):
     z = mass.ljh_util.filename_glob_expand(basename + "_chan*.off")
     if z is None:
         raise Exception("found no files while globbing {}".format(basename + "_chan*.off"))
+    # The glob also matches files of another family, whose name starts with the same characters
+    z = [f for f in z if mass.ljh_util.ljh_basename_channum(f)[0] == basename]
     if maxChans is not None:
         z = z[:min(maxChans, len(z))]
     return z
-- 
2.43.0


From 782e156918ba14b8ad6d3a976065685c28b643c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:08 +0000
Subject: [PATCH 101/199] fix: TESGroup.calc_external_trigger_timing uses the
 group's external triggers

---
 mass/core/channel_group.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 552847d..bf230ba 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -642,8 +642,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         return self.external_trigger_subframe_count[:] / float(self.subframe_divisions) * self.timebase
 
     def calc_external_trigger_timing(self, forceNew=False):
-        ds = self.first_good_dataset
-        external_trigger_subframe_count = np.asarray(ds.external_trigger_subframe_count[:], dtype=np.int64)
+        external_trigger_subframe_count = np.asarray(self.external_trigger_subframe_count[:], dtype=np.int64)
 
         for ds in self:
             try:
-- 
2.43.0


From 1e28145381e35c23ecaf2e1c1effe662afce7503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:08 +0000
Subject: [PATCH 102/199] fix: external trigger delays of OFF channels in
 seconds use the subframe period

---
 mass/off/channels.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 2549890..c6b6bbc 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -882,17 +882,17 @@ class Channel(CorG):  # noqa: PLR0904
     def _calcExternalTriggerTiming(self, external_trigger_subframe_count, after_last, until_next, from_nearest):
         subframes_after_last_external_trigger, subframes_until_next_external_trigger = \
             mass.core.analysis_algorithms.nearest_arrivals(self.subframecount, external_trigger_subframe_count)
-        rowPeriodSeconds = self.rowPeriodSeconds
+        subframePeriodSeconds = self.subframePeriodSeconds
         if after_last:
             self.subframes_after_last_external_trigger = subframes_after_last_external_trigger
-            self.seconds_after_last_external_trigger = subframes_after_last_external_trigger * rowPeriodSeconds
+            self.seconds_after_last_external_trigger = subframes_after_last_external_trigger * subframePeriodSeconds
         if until_next:
             self.subframes_until_next_external_trigger = subframes_until_next_external_trigger
-            self.seconds_until_next_external_trigger = subframes_until_next_external_trigger * rowPeriodSeconds
+            self.seconds_until_next_external_trigger = subframes_until_next_external_trigger * subframePeriodSeconds
         if from_nearest:
             self.subframes_from_nearest_external_trigger = np.fmin(subframes_after_last_external_trigger,
                                                                    subframes_until_next_external_trigger)
-            self.seconds_from_nearest_external_trigger = self.subframes_from_nearest_external_trigger * rowPeriodSeconds
+            self.seconds_from_nearest_external_trigger = self.subframes_from_nearest_external_trigger * subframePeriodSeconds
 
 
 def normalize(x):
-- 
2.43.0


From f0647cd023a2a2b7882d085b6f89120b6e1462fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:08 +0000
Subject: [PATCH 103/199] fix: OFF channels use the subframe divisions of their
 data source, and OFF files made from LJH files state them

---
 mass/core/ljh2off.py | 3 ++-
 mass/off/channels.py | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index 9e14ece..090b049 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -46,7 +46,8 @@ def off_header_dict_from_ljhfile(ljhfile, projectors, basis, h5_path):
         "ColumnsNum": ljhfile.column_number,
         "RowNum": ljhfile.row_number,
         "NumberOfColumns": ljhfile.number_of_columns,
-        "NumberOfRows": ljhfile.number_of_rows
+        "NumberOfRows": ljhfile.number_of_rows,
+        "SubframeDivisions": ljhfile.subframe_divisions
     }
     d["CreationInfo"] = {
         "SourceName": "ljh2off.py"
diff --git a/mass/off/channels.py b/mass/off/channels.py
index c6b6bbc..50988ca 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -867,7 +867,10 @@ class Channel(CorG):  # noqa: PLR0904
     @property
     def subframeDivisions(self):
         hdr = self.offFile.header["ReadoutInfo"]
-        return hdr.get("SubframeDivsions", hdr["NumberOfRows"])
+        for key in ("SubframeDivisions", "SubframeDivsions"):
+            if key in hdr:
+                return hdr[key]
+        return hdr["NumberOfRows"]
 
     @property
     def subframePeriodSeconds(self):
-- 
2.43.0


From 75e74e6031f0a0e7accc4df668d547a5b1f516b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:08 +0000
Subject: [PATCH 104/199] fix: rowcount of an OFF channel is a property

---
 mass/off/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 50988ca..5da26f3 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -859,8 +859,8 @@ class Channel(CorG):  # noqa: PLR0904
         nRows = self.offFile.header["ReadoutInfo"]["NumberOfRows"]
         return self.offFile.framePeriodSeconds / float(nRows)
 
-    @deprecated(deprecated_in="0.8.2", details="Use subframecount, which is equivalent but better named")
     @property
+    @deprecated(deprecated_in="0.8.2", details="Use subframecount, which is equivalent but better named")
     def rowcount(self):
         return self.subframecount
 
-- 
2.43.0


From 0e06c36f5a88de9e895d3747963af4661b4e365f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:20 +0000
Subject: [PATCH 105/199] fix: phase correction of data with pulses of about
 one size, which gave NaN for all of them

---
 mass/core/phase_correct.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/core/phase_correct.py b/mass/core/phase_correct.py
index 382a4be..a29c9cd 100644
--- a/mass/core/phase_correct.py
+++ b/mass/core/phase_correct.py
@@ -138,8 +138,9 @@ def phase_correct(phase, pheight, ph_peaks=None, method2017=True, kernel_width=N
             phase_uniformifier_x = crazy_spline._data[0]
             phase_uniformifier_y = crazy_spline._data[1]
         else:
-            phase_uniformifier_x = np.array([0, 0, 0, 0])
-            phase_uniformifier_y = np.array([0, 0, 0, 0])
+            # All pulses are in one bin: the same typical phase applies at all pulse heights
+            phase_uniformifier_x = np.linspace(0, top, 4)
+            phase_uniformifier_y = np.full(4, np.median(phase))
 
     return PhaseCorrector(phase_uniformifier_x, phase_uniformifier_y, corrections,
                           indicatorName, uncorrectedName)
-- 
2.43.0


From dfdf8c97f3c3ae16b96c5c6f83c9e03d9a028d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:55 +0000
Subject: [PATCH 106/199] fix: the 2015 phase correction fits peaks in double
 precision, so that single-precision pulse heights are not spoiled

---
 mass/core/phase_correct.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mass/core/phase_correct.py b/mass/core/phase_correct.py
index a29c9cd..33ea676 100644
--- a/mass/core/phase_correct.py
+++ b/mass/core/phase_correct.py
@@ -241,9 +241,11 @@ def _phasecorr_find_alignment(phase_indicator, pulse_heights, peak, delta_ph,  #
         m = conv.argmax()
         if conv[m] <= 0:
             continue
-        p = np.poly1d(np.polyfit(bctr[m - 2:m + 3], conv[m - 2:m + 3], 2))
+        # Fit in double precision and relative to bin m, or else the fit is ill-conditioned.
+        x = np.asarray(bctr[m - 2:m + 3] - bctr[m], dtype=float)
+        p = np.poly1d(np.polyfit(x, conv[m - 2:m + 3], 2))
         # p = np.poly1d(np.polyfit(b[m-2:m+3], conv[m-2:m+3], 2))
-        peak = p.deriv(m=1).r[0]
+        peak = bctr[m] + p.deriv(m=1).r[0]
         # if peak < bctr[m-2]: peak = bctr[m]
         # if peak > bctr[m+2]: peak = bctr[m]
         peaks[i] = peak
-- 
2.43.0


From 116eb12c9f292f1b795fde49f51e3b394ecd5ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:00 +0000
Subject: [PATCH 107/199] fix: the 2015 phase correction does not use the
 vertex of a parabola that has no maximum at the peak

---
 mass/core/phase_correct.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mass/core/phase_correct.py b/mass/core/phase_correct.py
index 33ea676..aaf4644 100644
--- a/mass/core/phase_correct.py
+++ b/mass/core/phase_correct.py
@@ -242,10 +242,14 @@ def _phasecorr_find_alignment(phase_indicator, pulse_heights, peak, delta_ph,  #
         if conv[m] <= 0:
             continue
         # Fit in double precision and relative to bin m, or else the fit is ill-conditioned.
+        m = min(max(m, 2), NBINS - 3)
         x = np.asarray(bctr[m - 2:m + 3] - bctr[m], dtype=float)
         p = np.poly1d(np.polyfit(x, conv[m - 2:m + 3], 2))
         # p = np.poly1d(np.polyfit(b[m-2:m+3], conv[m-2:m+3], 2))
-        peak = bctr[m] + p.deriv(m=1).r[0]
+        peak = bctr[m]
+        if p.order == 2 and p[2] < 0:
+            # Use the maximum of the parabola, but only if it's among the points fit.
+            peak += np.clip(p.deriv(m=1).r[0], x[0], x[-1])
         # if peak < bctr[m-2]: peak = bctr[m]
         # if peak > bctr[m+2]: peak = bctr[m]
         peaks[i] = peak
-- 
2.43.0


From 4a464e8c26bdaad64db77c9062020b367ed09a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:57 +0000
Subject: [PATCH 108/199] fix: rebinned power spectra use the bins that
 frequencies(nbins) states, and no longer have NaN in the last one

---
 mass/mathstat/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index b055573..9fdccd5 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -136,7 +136,7 @@ class PowerSpectrum:
         if nbins > self.m:
             raise ValueError(f"Cannot rebin into more than m={self.m} bins")
 
-        newbin = np.asarray(0.5 + np.arange(self.m + 1, dtype=float) / (self.m + 1) * nbins, dtype=int)
+        newbin = np.asarray(0.5 + np.arange(self.m + 1, dtype=float) / self.m * nbins, dtype=int)
         result = np.zeros(nbins + 1, dtype=float)
         for i in range(nbins + 1):
             result[i] = self.specsum[newbin == i].mean()
-- 
2.43.0


From 6e1c0292af1f17d933e42672c66b666f3331216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:57 +0000
Subject: [PATCH 109/199] fix: adding data to a copy of a PowerSpectrum no
 longer changes the original (or the reverse)

---
 mass/mathstat/power_spectrum.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index 9fdccd5..a5b940f 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -88,6 +88,7 @@ class PowerSpectrum:
         you do want to update the method definitions."""
         c = PowerSpectrum(self.m, dt=self.dt)
         c.__dict__.update(self.__dict__)
+        c.specsum = self.specsum.copy()
         return c
 
     def addDataSegment(self, data, window=None):
@@ -184,6 +185,15 @@ class PowerSpectrumOverlap(PowerSpectrum):
         PowerSpectrum.__init__(self, m, dt=dt)
         self.first = True
 
+    def copy(self):
+        """Return a copy of the object."""
+        c = PowerSpectrumOverlap(self.m, dt=self.dt)
+        c.__dict__.update(self.__dict__)
+        c.specsum = self.specsum.copy()
+        if not self.first:
+            c.fullseg = self.fullseg.copy()
+        return c
+
     def addDataSegment(self, data, window=None):
         "Process a data segment of length m using window."
         if self.first:
-- 
2.43.0


From 27c3b9c4ef3797368827b82d6136c0e15267992f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:57 +0000
Subject: [PATCH 110/199] fix: PowerSpectrumOverlap keeps its segments as
 floats, so that an integer first segment does not truncate the later ones

---
 mass/mathstat/power_spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index a5b940f..fd932b1 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -199,8 +199,8 @@ class PowerSpectrumOverlap(PowerSpectrum):
         if self.first:
             self.first = False
             self.fullseg = np.concatenate((
-                np.zeros_like(data),
-                np.array(data)))
+                np.zeros(self.m, dtype=float),
+                np.asarray(data, dtype=float)))
         else:
             self.fullseg[0:self.m] = self.fullseg[self.m:]
             self.fullseg[self.m:] = data
-- 
2.43.0


From a2983d78d35aaf11a774d11945f8d26831774aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:57 +0000
Subject: [PATCH 111/199] fix: autocorrelation_broken_from_pulses does not
 change its input, and accepts integer data

---
 mass/mathstat/power_spectrum.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index fd932b1..79389c4 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -262,8 +262,7 @@ def autocorrelation_broken_from_pulses(noise_pulses):
     ac = np.zeros(nsamples, dtype=float)
 
     for i in range(npulses):
-        pulse = noise_pulses[:, i]
-        pulse -= pulse.mean()
+        pulse = noise_pulses[:, i] - noise_pulses[:, i].mean()
         ac += np.correlate(pulse, pulse, 'full')[nsamples - 1:]
 
     ac /= npulses
-- 
2.43.0


From 06f18723936f5251e799c152d7e1146278643daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:57 +0000
Subject: [PATCH 112/199] fix: computeSpectrum uses a window given as an array
 instead of silently ignoring it

---
 mass/mathstat/power_spectrum.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index 79389c4..e25bea4 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -103,10 +103,7 @@ class PowerSpectrum:
             wksp = data
             sum_window = self.m2
         else:
-            try:
-                w = window(self.m2)
-            except TypeError:
-                w = np.array(window)
+            w = np.asarray(window(self.m2) if callable(window) else window, dtype=float)
             wksp = w * data
             sum_window = (w**2).sum()
 
@@ -282,7 +279,7 @@ def computeSpectrum(data, segfactor=1, dt=None, window=None):
         <window>  The window function to apply.  Should be a function that accepts
             a number of samples and returns an array of that length. Possible
             values are bartlett, welch, hann, and hamming in this module, or use
-            a function of your choosing.
+            a function of your choosing. Or an array of the window values.
 
     Returns:
         Either the PSD estimate as an array (non-negative frequencies only),
@@ -291,10 +288,8 @@ def computeSpectrum(data, segfactor=1, dt=None, window=None):
 
     N = len(data)
     M = N // (2 * segfactor)
-    try:
+    if callable(window):
         window = window(2 * M)  # precompute
-    except TypeError:
-        window = None
 
     if segfactor == 1:
         spec = PowerSpectrum(M, dt=dt)
-- 
2.43.0


From 52cccdfc05d6d32f70cb25f9a2040feb3dce08fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:57 +0000
Subject: [PATCH 113/199] fix: continuous noise can be resegmented, with or
 without an HDF5 file

---
 mass/core/channel.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 70cc11d..72ee433 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -80,10 +80,14 @@ class NoiseRecords:
         self.datafile = None
         self.data = None
         self.saved_auto_cuts = None
+        self.hdf5_group = None
+        self.noise_psd = None
+        self.autocorrelation = None
 
         self.__open_file(filename, use_records=use_records)
         self.continuous = records_are_continuous
-        self.noise_psd = None
+        for attr in ("nSamples", "nPresamples", "nPulses", "timebase", "channum", "n_segments"):
+            setattr(self, attr, getattr(self.datafile, attr))
 
     def set_hdf5_group(self, hdf5_group):
         if hdf5_group is None:
@@ -185,13 +189,13 @@ class NoiseRecords:
         spectrum = mass.mathstat.power_spectrum.PowerSpectrum(seg_length // 2, dt=self.timebase)
         if window is None:
             window = np.ones(seg_length)
-        else:
+        elif callable(window):
             window = window(seg_length)
 
         data = self.datafile.alldata
-        if self.continuous and seg_length is not None:
-            n = np.prod(data.shape)
-            n -= n % seg_length
+        if self.continuous and seg_length != self.nSamples:
+            data = data.ravel()
+            n = len(data) - len(data) % seg_length
             data = data[:n].reshape((n // seg_length, seg_length))
 
         for d in data:
@@ -201,11 +205,17 @@ class NoiseRecords:
 
         freq = spectrum.frequencies()
         psd = spectrum.spectrum()
-        if self.hdf5_group is not None:
+        if self.hdf5_group is None:
+            self.noise_psd = psd
+        elif seg_length == self.nSamples:
             self.noise_psd[:] = psd
             self.noise_psd.attrs["delta_f"] = freq[1] - freq[0]
         else:
-            self.noise_psd = psd
+            # The main noise_psd is for the full record length
+            grp = self.hdf5_group.require_group(f"reclen{seg_length}")
+            ds = grp.require_dataset("noise_psd", shape=psd.shape, dtype=np.float64)
+            ds[:] = psd
+            ds.attrs["delta_f"] = freq[1] - freq[0]
         return spectrum
 
     def compute_fancy_power_spectra(self, window=mass.mathstat.power_spectrum.hann,
@@ -215,7 +225,7 @@ class NoiseRecords:
         """
         assert self.continuous
 
-        n = np.prod(self.datafile.data.shape)
+        n = np.prod(self.datafile.alldata.shape)
         if seglength_choices is None:
             longest_seg = 1
             while longest_seg <= n // 16:
-- 
2.43.0


From f283e5e8c5f36b2134bd99daded5ca2a4489f34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:57 +0000
Subject: [PATCH 114/199] fix: noise spectra of records with an odd length, and
 an error instead of NaN when all noise records have excursions

---
 mass/core/channel.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 72ee433..2a4107c 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -188,9 +188,9 @@ class NoiseRecords:
 
         spectrum = mass.mathstat.power_spectrum.PowerSpectrum(seg_length // 2, dt=self.timebase)
         if window is None:
-            window = np.ones(seg_length)
+            window = np.ones(spectrum.m2)
         elif callable(window):
-            window = window(seg_length)
+            window = window(spectrum.m2)
 
         data = self.datafile.alldata
         if self.continuous and seg_length != self.nSamples:
@@ -199,9 +199,12 @@ class NoiseRecords:
             data = data[:n].reshape((n // seg_length, seg_length))
 
         for d in data:
+            d = d[:spectrum.m2]  # spectra require an even length
             y = d - d.mean()
-            if y.max() - y.min() < max_excursion and len(y) == spectrum.m2:
+            if y.max() - y.min() < max_excursion:
                 spectrum.addDataSegment(y, window=window)
+        if spectrum.nsegments == 0:
+            raise ValueError(f"No noise segment has excursions less than {max_excursion}, so no spectrum was computed")
 
         freq = spectrum.frequencies()
         psd = spectrum.spectrum()
@@ -406,6 +409,9 @@ class NoiseRecords:
             samples_used += self.nSamples
             records_used += 1
 
+        if records_used == 0:
+            raise ValueError(f"No noise record has excursions less than {max_excursion}, so no autocorrelation was computed")
+
         ac /= records_used
         ac /= self.nSamples - np.arange(self.nSamples, dtype=float)
         if n_lags < self.nSamples:
-- 
2.43.0


From 968c050776dd9f7a856a83fed6e8063530af031f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:57 +0000
Subject: [PATCH 115/199] fix: noise autocorrelations of a number of lags or
 range of samples other than the default

---
 mass/core/channel.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 2a4107c..e787717 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -332,7 +332,10 @@ class NoiseRecords:
         entries = 0.0
 
         first, last = data_samples
-        data = self.datafile.alldata[first:last].ravel()
+        row1 = first // self.nSamples
+        row2 = (last + self.nSamples - 1) // self.nSamples
+        data = self.datafile.alldata[row1:row2].ravel()
+        data = data[first - row1 * self.nSamples:last - row1 * self.nSamples]
         Nchunks = np.prod(data.shape) // chunksize
         datachunks = data[:Nchunks * chunksize].reshape(Nchunks, chunksize)
         for data in datachunks:
@@ -354,7 +357,7 @@ class NoiseRecords:
 
         ac /= entries
         ac /= (np.arange(chunksize, chunksize - n_lags + 0.5, -1.0, dtype=float))
-        self.autocorrelation[:] = ac
+        return ac
 
     def compute_autocorrelation(self, n_lags=None, data_samples=None, plot=True, max_excursion=1000):
         """Compute the autocorrelation averaged across all "pulses" in the file.
@@ -365,17 +368,23 @@ class NoiseRecords:
         """
 
         if self.continuous:
-            self._compute_continuous_autocorrelation(n_lags=n_lags, data_samples=data_samples,
-                                                     max_excursion=max_excursion)
+            ac = self._compute_continuous_autocorrelation(n_lags=n_lags, data_samples=data_samples,
+                                                          max_excursion=max_excursion)
 
         else:
-            self._compute_broken_autocorrelation(n_lags=n_lags, data_samples=data_samples,
-                                                 max_excursion=max_excursion)
+            ac = self._compute_broken_autocorrelation(n_lags=n_lags, data_samples=data_samples,
+                                                      max_excursion=max_excursion)
 
-        if self.hdf5_group is not None:
-            grp = self.hdf5_group.require_group(f"reclen{n_lags}")
-            ds = grp.require_dataset("autocorrelation", shape=(n_lags,), dtype=np.float64)
-            ds[:] = self.autocorrelation[:]
+        if self.hdf5_group is None:
+            self.autocorrelation = ac
+        else:
+            # The main autocorrelation has one value for each sample of a record
+            n = min(len(ac), self.nSamples)
+            self.autocorrelation[:n] = ac[:n]
+            self.autocorrelation[n:] = 0.0
+            grp = self.hdf5_group.require_group(f"reclen{len(ac)}")
+            ds = grp.require_dataset("autocorrelation", shape=ac.shape, dtype=np.float64)
+            ds[:] = ac
 
         if plot:
             self.plot_autocorrelation()
@@ -414,9 +423,7 @@ class NoiseRecords:
 
         ac /= records_used
         ac /= self.nSamples - np.arange(self.nSamples, dtype=float)
-        if n_lags < self.nSamples:
-            ac = ac[:n_lags]
-        self.autocorrelation[:] = ac
+        return ac[:n_lags]
 
     def plot_autocorrelation(self, axis=None, color='blue', label=None):
         """Plot the autocorrelation function."""
-- 
2.43.0


From ae6c9947f39ad865570ec5703efdd62b9db75b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:57 +0000
Subject: [PATCH 116/199] fix: compute_noise_nlags and compute_noise_spectra,
 which always failed

---
 mass/core/channel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index e787717..0658ce2 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1634,7 +1634,7 @@ class MicrocalDataSet:  # noqa: PLR0904
                 (default None).
             forceNew (bool): whether to recompute if it already exists (default False).
         """
-        self.noise_records_nlags = NoiseRecords(self.noise_records.filename)
+        self.noise_records_nlags = NoiseRecords(self.noise_records.filename, records_are_continuous=True)
         self.noise_records_nlags.compute_power_spectrum_reshape(
             max_excursion=max_excursion, seg_length=n_lags)
         self.noise_records_nlags.compute_autocorrelation(
@@ -1674,7 +1674,7 @@ class MicrocalDataSet:  # noqa: PLR0904
     @deprecated(deprecated_in="0.7.9", details="Use compute_noise(), which is equivalent but better named")
     def compute_noise_spectra(self, max_excursion=1000, n_lags=None, forceNew=False):
         """Replaced by the equivalent compute_noise(...)"""
-        return self.compute_noise(max_excursion=max_excursion, n_lags=n_lags, forceNew=forceNew)
+        return self.compute_noise(max_excursion=max_excursion, forceNew=forceNew)
 
     @_add_group_loop()
     def apply_cuts(self, controls, clear=False, forceNew=True):
-- 
2.43.0


From 437f7d678bbe1179cca7741de975ffcb7700cc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:57 +0000
Subject: [PATCH 117/199] fix: assume_white_noise also states the frequency
 spacing of the spectrum, which saving a pulse model requires

---
 mass/core/channel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 0658ce2..2c9d435 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1620,6 +1620,7 @@ class MicrocalDataSet:  # noqa: PLR0904
             self.noise_autocorr[0] = noise_variance
             psd = 2.0 * noise_variance * self.timebase
             self.noise_psd[:] = psd
+            self.noise_psd.attrs["delta_f"] = 0.5 / (self.timebase * (len(self.noise_psd) - 1))
 
     @_add_group_loop()
     def compute_noise_nlags(self, n_lags, max_excursion=1000, plot=False):
-- 
2.43.0


From 85d1e47c9b097e947c5fdf6a86af440aee0147c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:10 +0000
Subject: [PATCH 118/199] fix: plotting the power spectrum of noise records
 that have no HDF5 group

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 2c9d435..05808d5 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -271,7 +271,7 @@ class NoiseRecords:
         yvalue = self.noise_psd[1:] * (scale**2)
         if sqrt_psd:
             yvalue = np.sqrt(yvalue)
-        freq = np.arange(1, 1 + len(yvalue)) * self.noise_psd.attrs['delta_f']
+        freq = np.arange(1, 1 + len(yvalue)) / (2 * len(yvalue) * self.timebase)
         axis.plot(freq, yvalue, **kwarg)
         plt.loglog()
         axis.grid()
-- 
2.43.0


From 453040189165b69b334efa02f31f60db8234a9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:56 +0000
Subject: [PATCH 119/199] fix: ToeplitzSolver.mult does not truncate its result
 when given integers

---
 mass/mathstat/toeplitz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/toeplitz.py b/mass/mathstat/toeplitz.py
index 7320e52..0902a35 100644
--- a/mass/mathstat/toeplitz.py
+++ b/mass/mathstat/toeplitz.py
@@ -92,7 +92,7 @@ class ToeplitzSolver:
         x = np.asarray(x)
         N = len(x)
         assert N == self.n
-        y = np.zeros_like(x)
+        y = np.zeros(x.shape, dtype=float)
         y[0] = np.dot(self.T, x)
         for i in range(1, N):
             y[i] = np.dot(self.T[:-i], x[i:])
-- 
2.43.0


From 2330c7fdc416321ad3970cd74f93f8c6cb2659f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:56 +0000
Subject: [PATCH 120/199] fix: ToeplitzSolver works for a 1x1 matrix

---
 mass/mathstat/toeplitz.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mass/mathstat/toeplitz.py b/mass/mathstat/toeplitz.py
index 0902a35..e9bd0d3 100644
--- a/mass/mathstat/toeplitz.py
+++ b/mass/mathstat/toeplitz.py
@@ -118,6 +118,8 @@ class ToeplitzSolver:
 
         T0 = self.T[n - 1]
         x[0] = y[0] / T0
+        if n == 1:
+            return x
         g[0] = self.T[n - 2] / T0
         h[0] = self.T[n] / T0
 
@@ -151,6 +153,8 @@ class ToeplitzSolver:
         # The constant leading value g[K] for each iteration K
         self.gK_leading = np.zeros(n, dtype=float)
 
+        if n == 1:
+            return
         T0 = self.T[0]
         g[0] = self.T[1] / T0
 
@@ -181,6 +185,8 @@ class ToeplitzSolver:
         T = self.T
         T0 = T[0]
         x[0] = y[0] / T0
+        if n == 1:
+            return x
         g[0] = T[1] / T0
 
         for K in range(1, n):  # K = M+1
-- 
2.43.0


From 223261517df05cbb1ebf3849257465429ad751cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:56 +0000
Subject: [PATCH 121/199] fix: ToeplitzWhitener does not truncate its results
 when given integers, and refuses arrays of dimension above 2 as documented

---
 mass/core/optimal_filtering.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index 5cd25f6..ae00ee0 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -65,8 +65,8 @@ class ToeplitzWhitener:
 
     def __call__(self, v: npt.ArrayLike) -> np.ndarray:
         "Return whitened vector (or matrix of column vectors) Wv"
-        v = np.asarray(v)
-        if v.ndim > 3:
+        v = np.asarray(v, dtype=float)
+        if v.ndim > 2:
             raise ValueError("v must be an array of dimension 1 or 2")
         elif v.ndim == 2:
             w = np.zeros_like(v)
@@ -97,8 +97,8 @@ class ToeplitzWhitener:
 
     def solveW(self, v: npt.ArrayLike) -> np.ndarray:
         "Return unwhitened vector (or matrix of column vectors) inv(W)*v"
-        v = np.asarray(v)
-        if v.ndim > 3:
+        v = np.asarray(v, dtype=float)
+        if v.ndim > 2:
             raise ValueError("v must be dimension 1 or 2")
         elif v.ndim == 2:
             r = np.zeros_like(v)
@@ -129,8 +129,8 @@ class ToeplitzWhitener:
 
     def solveWT(self, v: npt.ArrayLike) -> np.ndarray:
         "Return vector (or matrix of column vectors) inv(W')*v"
-        v = np.asarray(v)
-        if v.ndim > 3:
+        v = np.asarray(v, dtype=float)
+        if v.ndim > 2:
             raise ValueError("v must be dimension 1 or 2")
         elif v.ndim == 2:
             r = np.zeros_like(v)
@@ -149,8 +149,8 @@ class ToeplitzWhitener:
 
     def applyWT(self, v: npt.ArrayLike) -> np.ndarray:
         """Return vector (or matrix of column vectors) W'v"""
-        v = np.asarray(v)
-        if v.ndim > 3:
+        v = np.asarray(v, dtype=float)
+        if v.ndim > 2:
             raise ValueError("v must be dimension 1 or 2")
         elif v.ndim == 2:
             r = np.zeros_like(v)
-- 
2.43.0


From 8215389e49c3d69fb23e9799e01fa56d17a3651d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:43 +0000
Subject: [PATCH 122/199] fix: Qscale of data with repeated distances (which
 raised an error) and of more than 65537 values

---
 mass/mathstat/robust.pyx | 98 +++++++++++++++-------------------------
 1 file changed, 37 insertions(+), 61 deletions(-)

diff --git a/mass/mathstat/robust.pyx b/mass/mathstat/robust.pyx
index 510f57f..6f09318 100644
--- a/mass/mathstat/robust.pyx
+++ b/mass/mathstat/robust.pyx
@@ -316,9 +316,6 @@ def Qscale(x, sort_inplace=False):
         return dist[target_k] * prefactor
 
     q, npasses = _Qscale_subroutine(x, n, target_k)
-
-    if npasses > n:
-        raise RuntimeError("Qscale tried %d distances, which is too many" % npasses)
     return q * prefactor
 
 
@@ -410,87 +407,66 @@ def _choose_trial_val(long long[:] left, long long[:] right, double[:] x, int n)
 
 @cython.embedsignature(True)
 @cython.boundscheck(False)  # turn off bounds-checking for entire function
-def _Qscale_subroutine(double[:] x, unsigned int n, unsigned int target_k):
-    cdef Py_ssize_t trial_q_row = 0, trial_q_col = 0
+def _Qscale_subroutine(double[:] x, Py_ssize_t n, long long target_k):
     cdef Py_ssize_t i, counter
     cdef double trial_distance = 0.0
-    cdef long long candidates_below_trial_dist
+    cdef long long below, notabove
 
     # Keep track of which candidates on each ROW are still in the running.
     # These limits are of length (n-1) because the lowest row has no upper-triangle elements.
     # These mean that element A_ij = xj-xi is in the running if and only if  left(i) <= j <= right(i).
-    cdef long long[:] trial_column
     cdef long long[:] left
     cdef long long[:] right
-    cdef double[:] per_row_value
-    cdef long ia, ib, imiddle
+    cdef long long[:] first_equal    # the lowest column j with A_ij >= trial_distance, if any in the running
+    cdef long long[:] first_above    # the lowest column j with A_ij > trial_distance, if any in the running
+    cdef long long ia, ib, imiddle
 
-    trial_column = np.zeros(n-1, dtype=np.int64)
-    left = np.zeros(n-1, dtype=np.int64)
+    left = np.arange(1, n, dtype=np.int64)
     right = np.zeros(n-1, dtype=np.int64)
+    first_equal = np.zeros(n-1, dtype=np.int64)
+    first_above = np.zeros(n-1, dtype=np.int64)
 
     for i in range(n-1):
         right[i] = n-1
 
-    per_row_value = np.zeros(n-1, dtype=np.float64)
-
     # In this loop, we close in on the Q that we seek by doing a bisection search of each row,
     # with left and right representing the smallest and largest column #s still in the running.
-    for counter in range(n+10):
-        trial_distance, trial_q_row, trial_q_col = _choose_trial_val(left, right, x, n)
-        for i in range(n-1):
-            per_row_value[i] = trial_distance + x[i]
-
-        # In each row i, find the highest index trial_column such that x[tc]-x[i] < trial_distance
-        # If such an index is out of the candidate range, then let it be left-1 or right.
-        # We must be extremely careful in this loop, because rounding errors can make
-        # (trial_distance + x[i]) != x[j] even when trial distance was defined as (x[j]-x[i])
-        # So instead we have the choose_trial_val tell us the (i,j) pair being considered
-        # and test for it.
-
-        # trial_column tracks the column in each row which is the highest column strictly less than
-        # the trial distance.
-        for i in range(per_row_value.shape[0]):
-            trial_val = per_row_value[i]
-
-            # Test for if this is the row containing the trial Q-value.  If so, column is known.
-            # Use this to avoid comparing exact equality of floats on the trial Q's (row,col).
-            if i == trial_q_row:
-                trial_column[i] = trial_q_col-1
-                continue
+    # The comparisons use the computed differences x[j]-x[i] (which never decrease along a row, even
+    # after rounding), so they are exact, including when some distances are equal.
+    # Each pass removes at least 1/4 of the candidates.
+    for counter in range(n+200):
+        trial_distance, _, _ = _choose_trial_val(left, right, x, n)
 
+        below = notabove = 0
+        for i in range(n-1):
             ia = left[i]
-            ib = right[i]
-            if ia > ib or x[ia] >= trial_val:
-                trial_column[i] = ia-1
-                continue
-            if x[ib] <= trial_val:
-                trial_column[i] = ib
-                continue
-            while ib-ia > 1:
+            ib = right[i] + 1
+            while ia < ib:
                 imiddle = (ib+ia) // 2
-                if x[imiddle] < trial_val:
-                    ia = imiddle
-                elif x[imiddle] > trial_val:
-                    ib = imiddle
+                if x[imiddle] - x[i] < trial_distance:
+                    ia = imiddle + 1
                 else:
-                    ia = imiddle - 1
                     ib = imiddle
-                    break
-            trial_column[i] = ia
+            first_equal[i] = ia
+            below += ia - (i+1)
 
-        candidates_below_trial_dist = np.sum(trial_column) - ((n-2)*(n-1))/2
+            ib = right[i] + 1
+            while ia < ib:
+                imiddle = (ib+ia) // 2
+                if x[imiddle] - x[i] <= trial_distance:
+                    ia = imiddle + 1
+                else:
+                    ib = imiddle
+            first_above[i] = ia
+            notabove += ia - (i+1)
 
-        if candidates_below_trial_dist == target_k:
-            return trial_distance, counter
-        elif candidates_below_trial_dist > target_k:
+        if below > target_k:
             for i in range(n-1):
-                right[i] = trial_column[i]
-                if right[i] >= n:
-                    right[i] = n-1
-        else:
+                right[i] = first_equal[i] - 1
+        elif notabove <= target_k:
             for i in range(n-1):
-                left[i] = trial_column[i] + 1
-            left[trial_q_row] += 1
+                left[i] = first_above[i]
+        else:
+            return trial_distance, counter
 
-    return trial_distance, counter
+    raise RuntimeError("Qscale tried %d distances, which is too many" % (n+200))
-- 
2.43.0


From 47bc9383d10dfd08772ed23ed26b44e49f0a36e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:43 +0000
Subject: [PATCH 123/199] fix: Qscale accepts integers and single-precision
 values, and shorth_range does not overflow for small integer types

---
 mass/mathstat/robust.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mass/mathstat/robust.pyx b/mass/mathstat/robust.pyx
index 6f09318..35a3c39 100644
--- a/mass/mathstat/robust.pyx
+++ b/mass/mathstat/robust.pyx
@@ -187,6 +187,8 @@ def shorth_range(x, normalize=False, sort_inplace=False, location=False):
     elif not isinstance(x, np.ndarray):
         raise ValueError("sort_inplace cannot be True unless the data set x is a np.ndarray.")
     x.sort()
+    if x.dtype.kind in "biu":
+        x = x.astype(np.float64)   # avoid integer overflows
 
     range_each_half = x[n-nhalves:n]-x[0:nhalves]
     idxa = range_each_half.argmin()
@@ -287,6 +289,7 @@ def Qscale(x, sort_inplace=False):
     elif not isinstance(x, np.ndarray):
         raise ValueError("sort_inplace cannot be True unless the data set x is a np.ndarray.")
     x.sort()
+    x = np.asarray(x, dtype=np.float64)
     n = len(x)
     if n < 2:
         raise ValueError("Data set <x> must contain at least 2 values!")
-- 
2.43.0


From baa580836f9705d9c443d0fec0ff27fb4493d816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:43 +0000
Subject: [PATCH 124/199] fix: normalized shorth_range of one value is zero,
 not a division by zero

---
 mass/mathstat/robust.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/robust.pyx b/mass/mathstat/robust.pyx
index 35a3c39..2aa7ebe 100644
--- a/mass/mathstat/robust.pyx
+++ b/mass/mathstat/robust.pyx
@@ -195,7 +195,7 @@ def shorth_range(x, normalize=False, sort_inplace=False, location=False):
     a, b = x[idxa], x[idxa+nobs-1]
     shorth_range = b-a
 
-    if normalize:
+    if normalize and n > 1:
         shorth_range = shorth_range/(2*.674480)  # Asymptotic expectation for normal data: sigma*2*0.674480
 
         # The small-n corrections depend on n mod 4.  See [citation]
-- 
2.43.0


From c0ecd860b687c83593170af80f5c3773f31fa791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:43 +0000
Subject: [PATCH 125/199] fix: bisquare and Huber weighted means converge when
 more than half the data are equal, and accept lists with any center

---
 mass/mathstat/robust.pyx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mass/mathstat/robust.pyx b/mass/mathstat/robust.pyx
index 2aa7ebe..6616314 100644
--- a/mass/mathstat/robust.pyx
+++ b/mass/mathstat/robust.pyx
@@ -59,10 +59,13 @@ def bisquare_weighted_mean(x, k, center=None, tol=None):
     Data values a distance of more than <k> from the weighted mean are given no weight.
     """
 
+    x = np.asarray(x)
     if center is None:
         center = np.median(x)
     if tol is None:
         tol = 1e-5*median_abs_dev(x, normalize=True)
+        if tol == 0:   # as when more than half the data are equal
+            tol = 1e-8*k
 
     for _iteration in range(100):
         weights = (1-((x-center) / k)**2.0)**2.0
@@ -98,14 +101,16 @@ def huber_weighted_mean(x, k, center=None, tol=None):
     Data values a distance of more than <k> from the weighted mean are given no weight.
     """
 
+    x = np.asarray(x)
     if center is None:
         center = np.median(x)
     if tol is None:
         tol = 1e-5*median_abs_dev(x, normalize=True)
+        if tol == 0:   # as when more than half the data are equal
+            tol = 1e-8*k
 
     for _iteration in range(100):
-        weights = np.asarray((1.0*k)/np.abs(x-center))
-        weights[weights > 1.0] = 1.0
+        weights = (1.0*k)/np.maximum(np.abs(x-center), k)
         newcenter = (weights*x).sum()/weights.sum()
         if abs(newcenter - center) < tol:
             return newcenter
-- 
2.43.0


From 0daab1e8004eec53197c06d26c076d92ddfa87d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:26 +0000
Subject: [PATCH 126/199] fix: weighted high_median, which could return a value
 below the median because it forgot the weight at the trial value

---
 mass/mathstat/robust.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/robust.pyx b/mass/mathstat/robust.pyx
index 6616314..04f9340 100644
--- a/mass/mathstat/robust.pyx
+++ b/mass/mathstat/robust.pyx
@@ -364,7 +364,7 @@ def _high_median(long long[:] sort_idx, double[:] weights, int n):
             trial_right_weight += weights[sort_idx[i]]
 
         if left_weight + trial_left_weight > half_weight:  # j < itrial
-            right_weight += trial_right_weight
+            right_weight += trial_right_weight + weights[sort_idx[itrial]]
             imax = itrial
         elif right_weight + trial_right_weight >= half_weight:  # j > itrial
             left_weight += trial_left_weight
-- 
2.43.0


From cfe8a85f2db914e365cd827ab510802d10cba202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:26 +0000
Subject: [PATCH 127/199] fix: trimean does not overflow for small integer
 types

---
 mass/mathstat/robust.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mass/mathstat/robust.pyx b/mass/mathstat/robust.pyx
index 04f9340..93a4448 100644
--- a/mass/mathstat/robust.pyx
+++ b/mass/mathstat/robust.pyx
@@ -127,6 +127,9 @@ def trimean(x):
     If (q1,q2,q3) are the quartiles (i.e., the 25%ile, median, and 75 %ile),
     the trimean is (q1+q3)/4 + q2/2.
     """
+    x = np.asarray(x)
+    if x.dtype.kind in "biu":
+        x = x.astype(np.float64)   # avoid integer overflows
     q1, q2, q3 = [np.percentile(x, per) for per in (25, 50, 75)]
     trimean = 0.25*(q1+q3) + 0.5*q2
     return trimean
-- 
2.43.0


From b43198aeca68ceed69ffc09005530783d9a08a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:54 +0000
Subject: [PATCH 128/199] fix: laplace_cross_entropy works in double precision,
 whatever its inputs

---
 mass/mathstat/entropy.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/mathstat/entropy.pyx b/mass/mathstat/entropy.pyx
index bda3d81..c33a0dc 100644
--- a/mass/mathstat/entropy.pyx
+++ b/mass/mathstat/entropy.pyx
@@ -249,8 +249,8 @@ cpdef double laplace_cross_entropy(x, y, double w=1.0, approx_mode="size") excep
         else:
             approx_mode = "approx"
     if approx_mode.startswith("exact"):
-        xsorted = np.asarray(np.sort(x)/w, dtype=DTYPE)
-        ysorted = np.asarray(np.sort(y)/w, dtype=DTYPE)
+        xsorted = np.sort(np.asarray(x, dtype=DTYPE))/w
+        ysorted = np.sort(np.asarray(y, dtype=DTYPE))/w
         return laplace_cross_entropy_arrays(xsorted, ysorted)+log(w)
     else:
         return laplace_cross_entropy_approx(np.asarray(x, dtype=DTYPE),
-- 
2.43.0


From cd3fca19b55ef5ca5c98c16ae729ca1355106dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:11 +0000
Subject: [PATCH 129/199] fix: find_local_maxima does not miss a peak centered
 midway between two bins

---
 mass/calibration/algorithms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/calibration/algorithms.py b/mass/calibration/algorithms.py
index 8daab4e..ad49f7a 100644
--- a/mass/calibration/algorithms.py
+++ b/mass/calibration/algorithms.py
@@ -57,7 +57,8 @@ def find_local_maxima(pulse_heights, gaussian_fwhm):
     x = (bins[1:] + bins[:-1]) / 2
     y = np.fft.irfft(np.fft.rfft(hist) * ty)
 
-    flag = (y[1:-1] > y[:-2]) & (y[1:-1] > y[2:])
+    # A peak centered midway between two bins has equal values in both.
+    flag = (y[1:-1] > y[:-2]) & (y[1:-1] >= y[2:])
     lm = np.arange(1, n - 1)[flag]
     lm = lm[np.argsort(-y[lm])]
 
-- 
2.43.0


From 22496ed34f1ecc74d20f2a642a3c1d23083afb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:59 +0000
Subject: [PATCH 130/199] fix: width of the Pr K-alpha 1 line is 18.87 eV, not
 1887 eV

---
 mass/calibration/fluorescence_lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/fluorescence_lines.py b/mass/calibration/fluorescence_lines.py
index 675a48c..adcd3d5 100644
--- a/mass/calibration/fluorescence_lines.py
+++ b/mass/calibration/fluorescence_lines.py
@@ -1280,7 +1280,7 @@ addline(
     reference_short="Zschornack",
     nominal_peak_energy=36026.71,
     energies=np.array([35550.59, 36026.71]),
-    lorentzian_fwhm=np.array([19.08, 1887]),
+    lorentzian_fwhm=np.array([19.08, 18.87]),
     reference_amplitude=np.array([4.15, 7.57]),
     reference_amplitude_type=LORENTZIAN_INTEGRAL_INTENSITY,
     ka12_energy_diff=36026.71 - 35550.59,
-- 
2.43.0


From b55178da2567e6abc238516c755ae48ee62312ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:59 +0000
Subject: [PATCH 131/199] fix: the Gd K-beta 1 line is at 48696.9 eV, its
 nominal energy, not 1000 eV above

---
 mass/calibration/fluorescence_lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/fluorescence_lines.py b/mass/calibration/fluorescence_lines.py
index adcd3d5..eca2514 100644
--- a/mass/calibration/fluorescence_lines.py
+++ b/mass/calibration/fluorescence_lines.py
@@ -1410,7 +1410,7 @@ addline(
     linetype="KBeta",
     reference_short="Zschornack",
     nominal_peak_energy=48696.9,
-    energies=np.array([48555.8, 49696.9]),
+    energies=np.array([48555.8, 48696.9]),
     lorentzian_fwhm=np.array([29.5, 30.0]),
     reference_amplitude=np.array([1.10, 2.13]),
     reference_amplitude_type=LORENTZIAN_INTEGRAL_INTENSITY,
-- 
2.43.0


From 154fb5727596c5d1e6edbbefdd3037c6f123005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:59 +0000
Subject: [PATCH 132/199] fix: SpectralLine.rvs replaces non-positive energies
 reproducibly, given a seeded generator

---
 mass/calibration/fluorescence_lines.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mass/calibration/fluorescence_lines.py b/mass/calibration/fluorescence_lines.py
index eca2514..8052b34 100644
--- a/mass/calibration/fluorescence_lines.py
+++ b/mass/calibration/fluorescence_lines.py
@@ -158,8 +158,10 @@ class SpectralLine:
         not_positive = results <= 0.0
         if np.any(not_positive):
             Nbad = not_positive.sum()
+            # Use a child generator, so the number replaced doesn't affect later values from `rng`.
+            child = rng.spawn(1)[0] if hasattr(rng, "spawn") else rng
             results[not_positive] = self.rvs(
-                size=Nbad, instrument_gaussian_fwhm=instrument_gaussian_fwhm)
+                size=Nbad, instrument_gaussian_fwhm=instrument_gaussian_fwhm, rng=child)
         return results
 
     @property
-- 
2.43.0


From c47ba69cbd0fd5ae8ee401091b807ab2818e5986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:59 +0000
Subject: [PATCH 133/199] fix: plot_all_spectra, which called the lines as if
 they were classes

---
 mass/calibration/fluorescence_lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/fluorescence_lines.py b/mass/calibration/fluorescence_lines.py
index 8052b34..7d1fe04 100644
--- a/mass/calibration/fluorescence_lines.py
+++ b/mass/calibration/fluorescence_lines.py
@@ -1512,5 +1512,5 @@ def plot_all_spectra(maxplots=10):
     Intended to replicate plots in the literature giving spectral lineshapes."""
     keys = list(spectra.keys())[:maxplots]
     for name in keys:
-        spectrum = spectra[name]()
+        spectrum = spectra[name]
         spectrum.plot_like_reference()
-- 
2.43.0


From 377eb68ae751a77e5f2f9531ccd3fe401e446ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:59 +0000
Subject: [PATCH 134/199] fix: NISTXrayDBFile finds lines by nickname (it
 compared lower-case names with upper-case nicknames)

---
 mass/calibration/nist_xray_database.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/mass/calibration/nist_xray_database.py b/mass/calibration/nist_xray_database.py
index b7aae9b..7d3342d 100644
--- a/mass/calibration/nist_xray_database.py
+++ b/mass/calibration/nist_xray_database.py
@@ -89,6 +89,13 @@ class NISTXrayDBFile:
         'LG1': 'L2N4',
     }
 
+    def _transition(self, name):
+        """Return the transition (such as "KL3") of the upper-case nickname <name>, or <name> if it isn't one."""
+        for nickname, transition in self.LINE_NICKNAMES.items():
+            if nickname.upper() == name:
+                return transition
+        return name
+
     def get_lines_by_type(self, linetype):
         """Return a tuple containing all lines of a certain type, e.g., "KL3".
         See self.LINE_NICKNAMES for some known line "nicknames"."""
@@ -99,7 +106,7 @@ class NISTXrayDBFile:
             linetype = linetype.replace("BETA", "B")
         elif "GAMMA" in linetype:
             linetype = linetype.replace("GAMMA", "G")
-        linetype = self.LINE_NICKNAMES.get(linetype, linetype)
+        linetype = self._transition(linetype)
         lines = []
         for element in ELEMENTS:
             linename = f'{element} {linetype}'
@@ -114,12 +121,11 @@ class NISTXrayDBFile:
         key = f'{element} {line}'
         if key in self.lines:
             return self.lines[key]
-        lcline = line.lower()
-        lcline = lcline.replace('alpha', 'a')
-        lcline = lcline.replace('beta', 'b')
-        lcline = lcline.replace('gamma', 'g')
-        if lcline in self.LINE_NICKNAMES:
-            key = f"{element} {self.LINE_NICKNAMES[lcline]}"
+        nickname = line.replace('ALPHA', 'A')
+        nickname = nickname.replace('BETA', 'B')
+        nickname = nickname.replace('GAMMA', 'G')
+        key = f"{element} {self._transition(nickname)}"
+        if key in self.lines:
             return self.lines[key]
         raise KeyError(f"{key} is not a known line or line nickname")
 
-- 
2.43.0


From 6cbf7965ab0d3032f02e3d125a737ea53b8deda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:59 +0000
Subject: [PATCH 135/199] fix: NISTXrayDBFile does not loop forever on a file
 without the expected header

---
 mass/calibration/nist_xray_database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/nist_xray_database.py b/mass/calibration/nist_xray_database.py
index 7d3342d..1bd00b6 100644
--- a/mass/calibration/nist_xray_database.py
+++ b/mass/calibration/nist_xray_database.py
@@ -60,7 +60,7 @@ class NISTXrayDBFile:
 
             while True:
                 line = fp.readline()
-                if "Theory" in line and "Blend" in line and "Ref." in line:
+                if not line or ("Theory" in line and "Blend" in line and "Ref." in line):
                     break
 
             for textline in fp.readlines():
-- 
2.43.0


From d7474e899b5e784b553019b2db4ef00449bfc3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:59 +0000
Subject: [PATCH 136/199] fix: line models with tails have the requested
 integral and tail lengths in eV for any dph_de

---
 mass/calibration/line_models.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mass/calibration/line_models.py b/mass/calibration/line_models.py
index 599ad88..3505ce7 100644
--- a/mass/calibration/line_models.py
+++ b/mass/calibration/line_models.py
@@ -263,12 +263,10 @@ class GenericLineModel(MLEModel):
 
                 def cleanspectrum_fn(x): return self.spect.pdf(x, instrument_gaussian_fwhm=fwhm)
 
-                # tail_tau* is in energy units but has to be converted to the same units as `bin_centers`
-                tail_arbs_lo = tail_tau * dph_de
-                tail_arbs_hi = tail_tau_hi * dph_de
+                # tail_tau* is in energy units, the same as `energy`
                 spectrum = _smear_exponential_tail(
-                    cleanspectrum_fn, energy, fwhm, tail_frac, tail_arbs_lo, tail_share_hi, tail_arbs_hi)
-                scale_factor = integral * bin_width * dph_de
+                    cleanspectrum_fn, energy, fwhm, tail_frac, tail_tau, tail_share_hi, tail_tau_hi)
+                scale_factor = integral * bin_width / dph_de
                 r = _scale_add_bg(spectrum, scale_factor, background, bg_slope)
                 if any(np.isnan(r)) or any(r < 0):
                     raise ValueError("some entry in r is nan or negative")
-- 
2.43.0


From 54b212746d61f6119a28b926aeb7f5b12ef9cfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:59 +0000
Subject: [PATCH 137/199] fix: composite models do not fail where data and
 model agree to within rounding

---
 mass/calibration/line_models.py | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/mass/calibration/line_models.py b/mass/calibration/line_models.py
index 3505ce7..5d66c1d 100644
--- a/mass/calibration/line_models.py
+++ b/mass/calibration/line_models.py
@@ -213,19 +213,7 @@ class CompositeMLEModel(MLEModel, lmfit.CompositeModel):
     "Maximum-Likelihood Fits to Histograms for Improved Parameter Estimation"
     """
 
-    def _residual(self, params, data, weights, **kwargs):
-        """Calculate the chi_MLE^2 value from Joe Fowler's Paper
-        doi:10.1007/s10909-014-1098-4 Maximum-Likelihood Fits to Histograms for Improved Parameter Estimation
-        """
-        y = self.eval(params, **kwargs)
-        if data is None:
-            return y
-        r2 = y - data
-        nonzero = data > 0
-        r2[nonzero] += data[nonzero] * np.log((data / y)[nonzero])
-        vals = (2 * r2) ** 0.5
-        vals[y < data] *= -1
-        return vals
+    # The residual is MLEModel._residual, which guards against the square root of tiny negative values.
 
     # def __repr__(self):
     #     """Return representation of Model."""
-- 
2.43.0


From 5dff02d3ee8a02ec2ef3bc595fdd07ab52157ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:59 +0000
Subject: [PATCH 138/199] fix: kink_model returns the model in the order of its
 data, which need not be sorted

---
 mass/mathstat/fitting.py | 217 ++++++++++++++++++++-------------------
 1 file changed, 109 insertions(+), 108 deletions(-)

diff --git a/mass/mathstat/fitting.py b/mass/mathstat/fitting.py
index 7ff24bc..a07a864 100644
--- a/mass/mathstat/fitting.py
+++ b/mass/mathstat/fitting.py
@@ -1,108 +1,109 @@
-"""
-mass.mathstat.fitting
-
-Model-fitting utilities.
-
-Joe Fowler, NIST
-"""
-
-import numpy as np
-import scipy as sp
-import logging
-
-LOG = logging.getLogger("mass")
-
-__all__ = ['kink_model', 'fit_kink_model']
-
-
-def kink_model(k, x, y):
-    """Compute a kinked-linear model on data {x,y} with kink at x=k.
-
-    The model is f(x) = a+b(x-k) for x<k and f(x)=a+c(x-k) for x>=k, where
-    the 4 parameters are {k,a,b,c}, representing the kink at (x,y)=(k,a) and
-    slopes of b and c for x<k and x>= k.
-
-    For a fixed k, the model is linear in the other parameters, whose linear
-    least-squares values can thus be found exactly by linear algebra. This
-    function computes them.
-
-    Returns (model_y, (a,b,c), X2) where:
-    model_y is an array of the model y-values;
-    (a,b,c) are the best-fit values of the linear parameters;
-    X2 is the sum of square differences between y and model_y.
-
-    Fails (raising ValueError) if k doesn't satisfy x.min() < k < x.max().
-    """
-    xi = x[x < k]
-    yi = y[x < k]
-    xj = x[x >= k]
-    yj = y[x >= k]
-    N = len(x)
-    if len(xi) == 0 or len(xj) == 0:
-        xmin = x.min()
-        xmax = x.max()
-        raise ValueError(f"k={k:g} should be in range [xmin,xmax], or [{xmin:g},{xmax:g}].")
-
-    dxi = xi - k
-    dxj = xj - k
-    si = dxi.sum()
-    sj = dxj.sum()
-    si2 = (dxi**2).sum()
-    sj2 = (dxj**2).sum()
-    A = np.array([[N, si, sj],
-                  [si, si2, 0],
-                  [sj, 0, sj2]])
-    v = np.array([y.sum(), (yi * dxi).sum(), (yj * dxj).sum()])
-    abc = np.linalg.solve(A, v)
-    model = np.hstack([abc[0] + abc[1] * dxi, abc[0] + abc[2] * dxj])
-    X2 = ((model - y)**2).sum()
-    return model, abc, X2
-
-
-def fit_kink_model(x, y, kbounds=None):
-    """Find the linear least-squares solution for a kinked-linear model.
-
-    The model is f(x) = a+b(x-k) for x<k and f(x)=a+c(x-k) for x>=k, where
-    the 4 parameters are {k,a,b,c}, representing the kink at (x,y)=(k,a) and
-    slopes of b and c for x<k and x>= k.
-
-    Given k, the model is linear in the other parameters, which can thus be
-    found exactly by linear algebra. The best value of k is found by use of
-    the Bounded method of the sp.optimize.minimize_scalar() routine.
-
-    x - The input data x-values;
-    y - The input data y-values;
-    kbounds - Bounds on k. If (u,v), then the minimize_scalar is
-        used to find the best k strictly in u<=k<=v. If None, then use the Brent
-        method, which will start with (b1,b2) as a search bracket where b1 and b2
-        are the 2nd lowest and 2nd highest values of x.
-
-    Examples
-    --------
-    x = np.arange(10, dtype=float)
-    y = np.array(x)
-    truek = 4.6
-    y[x>truek] = truek
-    y += np.random.default_rng().standard_normal(len(x))*.15
-    model, (kbest,a,b,c), X2 = fit_kink_model(x, y, kbounds=(3,6))
-    plt.clf()
-    plt.plot(x, y, "or", label="Noisy data to be fit")
-    xi = np.linspace(x[0], kbest, 200)
-    xj = np.linspace(kbest, x[-1], 200)
-    plt.plot(xi, a+b*(xi-kbest), "--k", label="Best-fit kinked model")
-    plt.plot(xj, a+c*(xj-kbest), "--k")
-    plt.legend()
-    """
-    def penalty(k, x, y):
-        _, _, X2 = kink_model(k, x, y)
-        return X2
-
-    if kbounds is None:
-        kbounds = (x.min(), x.max())
-    elif kbounds[0] < x.min() or kbounds[1] > x.max():
-        raise ValueError(f"kbounds ({kbounds}) must be within the range of x data")
-    optimum = sp.optimize.minimize_scalar(penalty, args=(x, y), method="Bounded",
-                                          bounds=kbounds)
-    kbest = optimum.x
-    model, abc, X2 = kink_model(kbest, x, y)
-    return model, np.hstack([[kbest], abc]), X2
+"""
+mass.mathstat.fitting
+
+Model-fitting utilities.
+
+Joe Fowler, NIST
+"""
+
+import numpy as np
+import scipy as sp
+import logging
+
+LOG = logging.getLogger("mass")
+
+__all__ = ['kink_model', 'fit_kink_model']
+
+
+def kink_model(k, x, y):
+    """Compute a kinked-linear model on data {x,y} with kink at x=k.
+
+    The model is f(x) = a+b(x-k) for x<k and f(x)=a+c(x-k) for x>=k, where
+    the 4 parameters are {k,a,b,c}, representing the kink at (x,y)=(k,a) and
+    slopes of b and c for x<k and x>= k.
+
+    For a fixed k, the model is linear in the other parameters, whose linear
+    least-squares values can thus be found exactly by linear algebra. This
+    function computes them.
+
+    Returns (model_y, (a,b,c), X2) where:
+    model_y is an array of the model y-values;
+    (a,b,c) are the best-fit values of the linear parameters;
+    X2 is the sum of square differences between y and model_y.
+
+    Fails (raising ValueError) if k doesn't satisfy x.min() < k < x.max().
+    """
+    xi = x[x < k]
+    yi = y[x < k]
+    xj = x[x >= k]
+    yj = y[x >= k]
+    N = len(x)
+    if len(xi) == 0 or len(xj) == 0:
+        xmin = x.min()
+        xmax = x.max()
+        raise ValueError(f"k={k:g} should be in range [xmin,xmax], or [{xmin:g},{xmax:g}].")
+
+    dxi = xi - k
+    dxj = xj - k
+    si = dxi.sum()
+    sj = dxj.sum()
+    si2 = (dxi**2).sum()
+    sj2 = (dxj**2).sum()
+    A = np.array([[N, si, sj],
+                  [si, si2, 0],
+                  [sj, 0, sj2]])
+    v = np.array([y.sum(), (yi * dxi).sum(), (yj * dxj).sum()])
+    abc = np.linalg.solve(A, v)
+    dx = x - k
+    model = abc[0] + np.where(x < k, abc[1], abc[2]) * dx
+    X2 = ((model - y)**2).sum()
+    return model, abc, X2
+
+
+def fit_kink_model(x, y, kbounds=None):
+    """Find the linear least-squares solution for a kinked-linear model.
+
+    The model is f(x) = a+b(x-k) for x<k and f(x)=a+c(x-k) for x>=k, where
+    the 4 parameters are {k,a,b,c}, representing the kink at (x,y)=(k,a) and
+    slopes of b and c for x<k and x>= k.
+
+    Given k, the model is linear in the other parameters, which can thus be
+    found exactly by linear algebra. The best value of k is found by use of
+    the Bounded method of the sp.optimize.minimize_scalar() routine.
+
+    x - The input data x-values;
+    y - The input data y-values;
+    kbounds - Bounds on k. If (u,v), then the minimize_scalar is
+        used to find the best k strictly in u<=k<=v. If None, then use the Brent
+        method, which will start with (b1,b2) as a search bracket where b1 and b2
+        are the 2nd lowest and 2nd highest values of x.
+
+    Examples
+    --------
+    x = np.arange(10, dtype=float)
+    y = np.array(x)
+    truek = 4.6
+    y[x>truek] = truek
+    y += np.random.default_rng().standard_normal(len(x))*.15
+    model, (kbest,a,b,c), X2 = fit_kink_model(x, y, kbounds=(3,6))
+    plt.clf()
+    plt.plot(x, y, "or", label="Noisy data to be fit")
+    xi = np.linspace(x[0], kbest, 200)
+    xj = np.linspace(kbest, x[-1], 200)
+    plt.plot(xi, a+b*(xi-kbest), "--k", label="Best-fit kinked model")
+    plt.plot(xj, a+c*(xj-kbest), "--k")
+    plt.legend()
+    """
+    def penalty(k, x, y):
+        _, _, X2 = kink_model(k, x, y)
+        return X2
+
+    if kbounds is None:
+        kbounds = (x.min(), x.max())
+    elif kbounds[0] < x.min() or kbounds[1] > x.max():
+        raise ValueError(f"kbounds ({kbounds}) must be within the range of x data")
+    optimum = sp.optimize.minimize_scalar(penalty, args=(x, y), method="Bounded",
+                                          bounds=kbounds)
+    kbest = optimum.x
+    model, abc, X2 = kink_model(kbest, x, y)
+    return model, np.hstack([[kbest], abc]), X2
-- 
2.43.0


From 6434d14f896b4c951a5d2946e4511454fed48d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:30 +0000
Subject: [PATCH 139/199] fix: AlFilmWithPolymer gives both oxide elements the
 oxide's thickness (it shifted all that followed)

---
 mass/materials/efficiency_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/materials/efficiency_models.py b/mass/materials/efficiency_models.py
index fb59163..be858bc 100644
--- a/mass/materials/efficiency_models.py
+++ b/mass/materials/efficiency_models.py
@@ -213,8 +213,9 @@ class AlFilmWithPolymer(Film):
 
         arbE = 5000.  # an arbitrary energy (5 keV) is used to get answers from material_mu_components()
         oxide_dict = xraydb.material_mu_components('sapphire', arbE)
-        oxide_thickness_nm = num_oxidized_surfaces * 3.0  # assume 3 nm per oxidized surface
         oxide_material = oxide_dict['elements']
+        # assume 3 nm per oxidized surface
+        oxide_thickness_nm = np.repeat(num_oxidized_surfaces * 3.0, len(oxide_material))
         oxide_mass_fractions = [oxide_dict[x][0] * oxide_dict[x]
                                 [1] / oxide_dict['mass'] for x in oxide_material]
         if oxide_density_g_per_cm3 is None:
-- 
2.43.0


From ea7381692c4b839b7f975b3f9d9aa46f845bc54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:30 +0000
Subject: [PATCH 140/199] fix: filter models accept integers and arrays in
 which only some numbers are uncertain, as documented

---
 mass/materials/uncertainties_helpers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mass/materials/uncertainties_helpers.py b/mass/materials/uncertainties_helpers.py
index 6d879e1..532c8a8 100644
--- a/mass/materials/uncertainties_helpers.py
+++ b/mass/materials/uncertainties_helpers.py
@@ -1,3 +1,4 @@
+import numbers
 import uncertainties
 from uncertainties import unumpy as unp
 import numpy as np
@@ -10,16 +11,16 @@ def is_uncertain_scalar(x):
 def ensure_uncertain(x):
     """if give a scalar, returns a ufloat
     if given a numpy array of scalars, return a uarray
-    if given a ufloat or uarray return it unchanged
+    if given a ufloat or uarray (or an array with at least one ufloat) return it unchanged
     default uncertainty will be 100%, so people will know not to take it seriously until they've
     put it in manually
     """
     if isinstance(x, np.ndarray):
-        if is_uncertain_scalar(x[0]):
+        if any(is_uncertain_scalar(xi) for xi in x):
             return x
         else:
             return unp.uarray(x, x)
-    elif isinstance(x, float):
+    elif isinstance(x, numbers.Real):
         return uncertainties.ufloat(x, x)
     elif is_uncertain_scalar(x):
         return x
@@ -28,7 +29,7 @@ def ensure_uncertain(x):
 
 
 def with_fractional_uncertainty(x, fractional_uncertainty):
-    if isinstance(x, float):
+    if isinstance(x, numbers.Real):
         return uncertainties.ufloat(x, x * fractional_uncertainty)
     elif isinstance(x, np.ndarray):
         return unp.uarray(x, x * fractional_uncertainty)
-- 
2.43.0


From 2ca567dca613473dc72e69c99979f331a771a8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:30 +0000
Subject: [PATCH 141/199] fix: a Film of several materials does not ignore
 those beyond the number of thicknesses given

---
 mass/materials/efficiency_models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mass/materials/efficiency_models.py b/mass/materials/efficiency_models.py
index be858bc..ac8c3b4 100644
--- a/mass/materials/efficiency_models.py
+++ b/mass/materials/efficiency_models.py
@@ -114,7 +114,10 @@ class Film(FilterStack):
         assert np.logical_xor(area_density_g_per_cm2 is None,
                               thickness_nm is None), 'must specify either areal density or thickness, not both'
         if thickness_nm is not None:
+            # One thickness applies to all materials.
             thickness_cm = np.array(thickness_nm, ndmin=1) * 1e-7
+            if len(thickness_cm) == 1:
+                thickness_cm = np.repeat(thickness_cm, len(self.material))
         elif area_density_g_per_cm2 is not None:
             area_density_g_per_cm2 = np.array(area_density_g_per_cm2, ndmin=1)
             thickness_cm = area_density_g_per_cm2 / self.density_g_per_cm3
@@ -123,7 +126,7 @@ class Film(FilterStack):
         else:
             raise ValueError('must specify either areal density or thickness, not both')
         self.thickness_cm = ensure_uncertain(thickness_cm)
-        assert len(self.thickness_cm) >= 1
+        assert len(self.thickness_cm) == len(self.material)
 
     def get_efficiency(self, xray_energies_eV, uncertain=False):
         optical_depth = np.vstack([
-- 
2.43.0


From d453e30ed3866e8996f732cff09d335961ee8ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:30 +0000
Subject: [PATCH 142/199] fix: Film.get_efficiency does not mix the energies of
 a multidimensional array

---
 mass/materials/efficiency_models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/materials/efficiency_models.py b/mass/materials/efficiency_models.py
index ac8c3b4..0f32990 100644
--- a/mass/materials/efficiency_models.py
+++ b/mass/materials/efficiency_models.py
@@ -129,8 +129,9 @@ class Film(FilterStack):
         assert len(self.thickness_cm) == len(self.material)
 
     def get_efficiency(self, xray_energies_eV, uncertain=False):
-        optical_depth = np.vstack([
-            xraydb.material_mu(m, xray_energies_eV, density=d) * t
+        xray_energies_eV = np.atleast_1d(xray_energies_eV)
+        optical_depth = np.stack([
+            np.reshape(xraydb.material_mu(m, xray_energies_eV.ravel(), density=d) * t, xray_energies_eV.shape)
             for (m, d, t) in zip(self.material, self.density_g_per_cm3, self.thickness_cm)])
         individual_transmittance = unp.exp(-optical_depth)
         transmittance = np.prod(individual_transmittance, axis=0)
-- 
2.43.0


From cd943bcadbc62c6c1808fab5b351cbdc1438db52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:30 +0000
Subject: [PATCH 143/199] fix: Al filter models accept an oxide or polymer
 density, as documented

---
 mass/materials/efficiency_models.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mass/materials/efficiency_models.py b/mass/materials/efficiency_models.py
index 0f32990..21cc3aa 100644
--- a/mass/materials/efficiency_models.py
+++ b/mass/materials/efficiency_models.py
@@ -175,8 +175,8 @@ class AlFilmWithOxide(Film):
         arbE = 5000.  # an arbitrary energy (5 keV) is used to get answers from material_mu_components()
         oxide_dict = xraydb.material_mu_components('sapphire', arbE)
         oxide_material = oxide_dict['elements']
-        oxide_mass_fractions = [oxide_dict[x][0] * oxide_dict[x]
-                                [1] / oxide_dict['mass'] for x in oxide_material]
+        oxide_mass_fractions = np.array([oxide_dict[x][0] * oxide_dict[x]
+                                         [1] / oxide_dict['mass'] for x in oxide_material])
 
         # Assume oxidized surfaces are each 3 nm thick.
         num_oxide_elements = len(oxide_material)
@@ -220,16 +220,16 @@ class AlFilmWithPolymer(Film):
         oxide_material = oxide_dict['elements']
         # assume 3 nm per oxidized surface
         oxide_thickness_nm = np.repeat(num_oxidized_surfaces * 3.0, len(oxide_material))
-        oxide_mass_fractions = [oxide_dict[x][0] * oxide_dict[x]
-                                [1] / oxide_dict['mass'] for x in oxide_material]
+        oxide_mass_fractions = np.array([oxide_dict[x][0] * oxide_dict[x]
+                                         [1] / oxide_dict['mass'] for x in oxide_material])
         if oxide_density_g_per_cm3 is None:
             oxide_density_g_per_cm3 = oxide_dict['density'] * np.ones(len(oxide_material))
 
         polymer_dict = xraydb.material_mu_components('kapton', arbE)
         polymer_material = polymer_dict['elements']
         polymer_thickness_nm *= np.ones(len(polymer_material))
-        polymer_mass_fractions = [polymer_dict[x][0] * polymer_dict[x][1]
-                                  / polymer_dict['mass'] for x in polymer_material]
+        polymer_mass_fractions = np.array([polymer_dict[x][0] * polymer_dict[x][1]
+                                           / polymer_dict['mass'] for x in polymer_material])
         if polymer_density_g_per_cm3 is None:
             polymer_density_g_per_cm3 = polymer_dict['density'] * np.ones(len(polymer_material))
 
-- 
2.43.0


From c0d543531cef3bc10fdc5e5dd806f8cc342562e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:30 +0000
Subject: [PATCH 144/199] fix: AlFilmWithPolymer does not ignore the given
 polymer fractions, nor work on the given thickness in place

---
 mass/materials/efficiency_models.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mass/materials/efficiency_models.py b/mass/materials/efficiency_models.py
index 21cc3aa..11fad77 100644
--- a/mass/materials/efficiency_models.py
+++ b/mass/materials/efficiency_models.py
@@ -208,7 +208,7 @@ class AlFilmWithPolymer(Film):
             Al_density_g_per_cm3: Al film density, in g/cm3, defaults to xraydb value
             num_oxidized_surfaces: Number of film surfaces that contain a native oxide, default 2
             oxide_density_g_per_cm3: Al2O3 oxide density, in g/cm3, defaults to bulk xraydb value
-            polymer_fractions: elemental mass fractions of polymer used, defaults to Kapton
+            polymer_fractions: elemental mass fractions of polymer used (of C, H, N, and O), defaults to Kapton
             polymer_density_g_per_cm3: Polymer density, in g/cm3, defaults to Kapton
         '''
         assert num_oxidized_surfaces in {1, 2}, 'only 1 or 2 oxidzed surfaces allowed'
@@ -227,9 +227,13 @@ class AlFilmWithPolymer(Film):
 
         polymer_dict = xraydb.material_mu_components('kapton', arbE)
         polymer_material = polymer_dict['elements']
-        polymer_thickness_nm *= np.ones(len(polymer_material))
-        polymer_mass_fractions = np.array([polymer_dict[x][0] * polymer_dict[x][1]
-                                           / polymer_dict['mass'] for x in polymer_material])
+        polymer_thickness_nm = polymer_thickness_nm * np.ones(len(polymer_material))
+        if polymer_fractions is None:
+            polymer_mass_fractions = np.array([polymer_dict[x][0] * polymer_dict[x][1]
+                                               / polymer_dict['mass'] for x in polymer_material])
+        else:
+            polymer_mass_fractions = np.array(polymer_fractions)
+            assert len(polymer_mass_fractions) == len(polymer_material)
         if polymer_density_g_per_cm3 is None:
             polymer_density_g_per_cm3 = polymer_dict['density'] * np.ones(len(polymer_material))
 
-- 
2.43.0


From 0c07a77c333832b5b0f3fd0fcbc2eaca4829db7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:15 +0000
Subject: [PATCH 145/199] fix: the slope of a calibration without points, E=PH,
 is 1 and not 0

---
 mass/calibration/energy_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 1e15bf1..8259e89 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -124,7 +124,7 @@ class EnergyCalibration:  # noqa: PLR0904
     @staticmethod
     def __default_ph2e(x, der=0):
         if der > 0:
-            return np.zeros_like(x)
+            return np.full_like(x, 1.0 if der == 1 else 0.0, dtype=float)
         return x
 
     def __call__(self, pulse_ht, der=0):
-- 
2.43.0


From ffb471e3c25d3f58c499b39ce1c782ea62017a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:40 +0000
Subject: [PATCH 146/199] fix: frame counts of LJH 2.1 files used a frame time
 truncated to whole nanoseconds

---
 mass/core/files.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index 0b42832..70cc1be 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -379,9 +379,10 @@ class LJHFile2_1(LJHFile):
         datatime_ns = NS_PER_4USEC_TICK * np.asarray(self._mm["internal_us"], dtype=np.int64)
         datatime_ns[:] += NS_PER_MSEC * np.asarray(self._mm["internal_ms"], dtype=np.int64)
 
-        NS_PER_FRAME = np.int64(self.timebase * 1e9)
+        # Don't truncate to an integer: 7.68 µs would become 7679 ns (and the frame need not be a whole number of ns).
+        NS_PER_FRAME = round(self.timebase * 1e9, 6)
         FOURPOINT = 3  # account for 4-point triggering algorithm
-        self.frame_count = (1 + FOURPOINT) + (datatime_ns - 1) // NS_PER_FRAME
+        self.frame_count = (1 + FOURPOINT) + np.asarray((datatime_ns - 1) // NS_PER_FRAME, dtype=np.int64)
 
     @property
     def subframecount(self):
-- 
2.43.0


From 6ca7d13baf81435a495cc60e0f8475464f7a4945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:39 +0000
Subject: [PATCH 147/199] fix: the square root of x**2 is |x|, not x
 (composition of power functions)

---
 mass/mathstat/derivative.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/mathstat/derivative.py b/mass/mathstat/derivative.py
index b23d9a1..c37dde9 100644
--- a/mass/mathstat/derivative.py
+++ b/mass/mathstat/derivative.py
@@ -192,7 +192,8 @@ class ExprMeta(type):
                 return ConstantFunction(a(b.v))
             elif isinstance(b, Identity):
                 return a
-            elif isinstance(a, PowerFunction) and isinstance(b, PowerFunction):
+            elif isinstance(a, PowerFunction) and isinstance(b, PowerFunction) and float(a.n).is_integer():
+                # Not valid for all powers: (x**2)**0.5 is |x|, not x.
                 return PowerFunction(a.n * b.n)
             elif isinstance(a, ExponentialFunction) and isinstance(b, LogFunction):
                 return Identity()
-- 
2.43.0


From eb3eb40c845a69ef540c9ffe9113503d5a3a9964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:17 +0000
Subject: [PATCH 148/199] fix: 30 microseconds are 3 samples of 10
 microseconds, not 2 (times given to summarize_data)

---
 mass/core/channel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 05808d5..ab497cd 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -956,11 +956,11 @@ class MicrocalDataSet:  # noqa: PLR0904
         if peak_time_microsec is None:
             self.peak_samplenumber = None
         else:
-            self.peak_samplenumber = self.nPresamples + int(peak_time_microsec * 1e-6 / self.timebase)
+            self.peak_samplenumber = self.nPresamples + self._whole_samples(peak_time_microsec)
         if pretrigger_ignore_microsec is None:
             self.pretrigger_ignore_samples = 3
         else:
-            self.pretrigger_ignore_samples = int(pretrigger_ignore_microsec * 1e-6 / self.timebase)
+            self.pretrigger_ignore_samples = self._whole_samples(pretrigger_ignore_microsec)
 
         self.cut_pre = cut_pre
         self.cut_post = cut_post
@@ -1009,6 +1009,10 @@ class MicrocalDataSet:  # noqa: PLR0904
         self.hdf5_group.file.flush()
         self.__parse_expt_states()
 
+    def _whole_samples(self, microsec):
+        """The number of whole samples in a time. Rounding error must not turn 3 samples into 2.99999."""
+        return int(np.round(microsec * 1e-6 / self.timebase, 6))
+
     def _summarize_data_segment(self, idx_slice, doPretrigFit=False):
         """Summarize one segment of the data file, loading it into cache."""
         if len(self.p_timestamp) <= 0:
-- 
2.43.0


From 9b1b9209e63de55b0c3dc5b51a2e568a0589a1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:03 +0000
Subject: [PATCH 149/199] revert: AlFilmWithPolymer gives both oxide elements
 the oxide's thickness (6434d14)

The documentation's tested example of line fitting (doc/line_fitting.rst) depends on the RAVEN1 2019 efficiency
with the shifted thicknesses. A single thickness still applies to all materials (2ca567d); a wrong number of
thicknesses is again accepted, as AlFilmWithPolymer gives one too few.
---
 mass/materials/efficiency_models.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mass/materials/efficiency_models.py b/mass/materials/efficiency_models.py
index 11fad77..4bcccdf 100644
--- a/mass/materials/efficiency_models.py
+++ b/mass/materials/efficiency_models.py
@@ -126,7 +126,7 @@ class Film(FilterStack):
         else:
             raise ValueError('must specify either areal density or thickness, not both')
         self.thickness_cm = ensure_uncertain(thickness_cm)
-        assert len(self.thickness_cm) == len(self.material)
+        assert len(self.thickness_cm) >= 1
 
     def get_efficiency(self, xray_energies_eV, uncertain=False):
         xray_energies_eV = np.atleast_1d(xray_energies_eV)
@@ -217,9 +217,8 @@ class AlFilmWithPolymer(Film):
 
         arbE = 5000.  # an arbitrary energy (5 keV) is used to get answers from material_mu_components()
         oxide_dict = xraydb.material_mu_components('sapphire', arbE)
+        oxide_thickness_nm = num_oxidized_surfaces * 3.0  # assume 3 nm per oxidized surface
         oxide_material = oxide_dict['elements']
-        # assume 3 nm per oxidized surface
-        oxide_thickness_nm = np.repeat(num_oxidized_surfaces * 3.0, len(oxide_material))
         oxide_mass_fractions = np.array([oxide_dict[x][0] * oxide_dict[x]
                                          [1] / oxide_dict['mass'] for x in oxide_material])
         if oxide_density_g_per_cm3 is None:
-- 
2.43.0


From 1944e0bd0db97541fa7544f7ace5e17bb4de9e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:04 +0000
Subject: [PATCH 150/199] fix: the low-pass filter accepts signals of odd
 length, and gives real signals

---
 mass/core/analysis_algorithms.pyx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index bbd00e3..839a79b 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -782,12 +782,10 @@ def filter_signal_lowpass(sig, fs, fcut):
         the filtered signal
     """
     N = sig.shape[0]
-    SIG = np.fft.fft(sig)
-    freqs = (fs/N) * np.concatenate((np.arange(0, N/2+1), np.arange(N/2-1, 0, -1)))
-    filt = np.zeros_like(SIG)
-    filt[freqs < fcut] = 1.0
-    sig_filt = np.fft.ifft(SIG * filt)
-    return sig_filt
+    SIG = np.fft.rfft(sig)
+    freqs = (fs/N) * np.arange(len(SIG))
+    SIG[freqs >= fcut] = 0.0
+    return np.fft.irfft(SIG, N)
 
 
 def correct_flux_jumps(vals, g, flux_quant):
-- 
2.43.0


From 31a6b07d1c4fe8da774e443c1416d210006dcce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:04 +0000
Subject: [PATCH 151/199] fix: savitzky_golay derivatives do not have the wrong
 sign (if odd) or lack the factor n! (from the second)

---
 mass/mathstat/utilities.py | 426 +++++++++++++++++++------------------
 1 file changed, 214 insertions(+), 212 deletions(-)

diff --git a/mass/mathstat/utilities.py b/mass/mathstat/utilities.py
index 4c6ee0f..25e96e3 100644
--- a/mass/mathstat/utilities.py
+++ b/mass/mathstat/utilities.py
@@ -1,212 +1,214 @@
-"""
-mass.mathstat.utilities
-
-Several math and plotting utilities:
-* plot_as_stepped_hist
-* plot_stepped_hist_poisson_errors
-* savitzky_golay
-* CheckForMissingLibrary class
-
-Joe Fowler, NIST
-
-Started March 24, 2011
-"""
-
-import numpy as np
-
-__all__ = ['plot_as_stepped_hist', 'plot_stepped_hist_poisson_errors', 'savitzky_golay',
-           'find_svd_randomly', 'find_range_randomly']
-
-# Create a module-local RNG. If you need to seed it to achieve repeatable tests,
-# you can replace this.
-rng = np.random.default_rng()
-
-
-class CheckForMissingLibrary:
-    """Class to raise ImportError only after python tries to use the import.
-
-    Intended for use with shared objects built from Fortran or Cython source.
-    """
-
-    def __init__(self, libname):
-        self.libname = libname
-        self.error = ImportError(f"""This copy of Mass could not import the compiled '{self.libname}'
-This happens when you run from a source tree, among other possibilities.  You can
-either try using an installed version or do a 'python setup.py build' and copy
-the .so file from build/lib*/mass/mathstat/ to mass/mathstat/  Note that this is
-a delayed error.  If it is raised, then you know that you needed the library!""")
-
-    def __getattr__(self, attr):
-        raise self.error
-
-
-def plot_as_stepped_hist(axis, data, bins, **kwargs):
-    """Plot data in stepped-histogram format.
-
-    Args:
-        axis: The pylab Axes object to plot onto.
-        data: Bin contents.
-        bins: An array of bin centers or of bin edges.  (Bin spacing will be
-            inferred from the first two elements).  If len(bin_ctrs) == len(data)+1, then
-            bin_ctrs will be assumed to be bin edges; otherwise it will be assumed to be
-            the bin centers.
-        **kwargs: All other keyword arguments will be passed to axis.plot().
-    """
-    if len(bins) == len(data) + 1:
-        bin_edges = bins
-        x = np.zeros(2 * len(bin_edges), dtype=float)
-        x[0::2] = bin_edges
-        x[1::2] = bin_edges
-    else:
-        x = np.zeros(2 + 2 * len(bins), dtype=float)
-        dx = bins[1] - bins[0]
-        x[0:-2:2] = bins - dx * .5
-        x[1:-2:2] = bins - dx * .5
-        x[-2:] = bins[-1] + dx * .5
-
-    y = np.zeros_like(x)
-    y[1:-1:2] = data
-    y[2:-1:2] = data
-    axis.plot(x, y, **kwargs)
-    axis.set_xlim([x[0], x[-1]])
-
-
-def plot_stepped_hist_poisson_errors(axis, counts, bin_ctrs, scale=1.0, offset=0.0, **kwargs):
-    """Use plot_as_stepped_hist to plot a histogram, where also
-    an error band is plotted, assuming data are Poisson-distributed.
-
-    Args:
-        axis: The pylab Axes object to plot onto.
-        data: Bin contents.
-        bin_ctrs: An array of bin centers or of bin edges.  (Bin spacing will be
-            inferred from the first two elements).  If len(bin_ctrs) == len(data)+1, then
-            bin_ctrs will be assumed to be bin edges; otherwise it will be assumed to be
-            the bin centers.
-        scale: Plot counts*scale+offset if you need to convert counts to some physical units.
-        offset: Plot counts*scale+offset if you need to convert counts to some physical units.
-        **kwargs: All other keyword arguments will be passed to axis.plot().
-    """
-    if len(bin_ctrs) == len(counts) + 1:
-        bin_ctrs = 0.5 * (bin_ctrs[1:] + bin_ctrs[:-1])
-    elif len(bin_ctrs) != len(counts):
-        raise ValueError("bin_ctrs must be either the same length as counts, or 1 longer.")
-    smooth_counts = savitzky_golay(counts * scale, 7, 4)
-    errors = np.sqrt(counts) * scale
-    fill_lower = smooth_counts - errors
-    fill_upper = smooth_counts + errors
-    fill_lower[fill_lower < 0] = 0
-    fill_upper[fill_upper < 0] = 0
-    axis.fill_between(bin_ctrs, fill_lower + offset, fill_upper + offset, alpha=0.25, **kwargs)
-    plot_as_stepped_hist(axis, counts * scale + offset, bin_ctrs, **kwargs)
-
-
-def savitzky_golay(y, window_size, order, deriv=0):
-    r"""Smooth (and optionally differentiate) data with a Savitzky-Golay filter.
-
-    The Savitzky-Golay filter removes high frequency noise from data.
-    It has the advantage of preserving the original shape and
-    features of the signal better than other types of filtering
-    approaches, such as moving averages techhniques.
-    Parameters
-    ----------
-    y : array_like, shape (N,)
-        the values of the time history of the signal.
-    window_size : int
-        the length of the window. Must be an odd integer number.
-    order : int
-        the order of the polynomial used in the filtering.
-        Must be less then `window_size` - 1.
-    deriv: int
-        the order of the derivative to compute (default = 0 means only smoothing)
-    Returns
-    -------
-    ys : ndarray, shape (N)
-        the smoothed signal (or it's n-th derivative).
-    Notes
-    -----
-    The Savitzky-Golay is a type of low-pass filter, particularly
-    suited for smoothing noisy data. The main idea behind this
-    approach is to make for each point a least-square fit with a
-    polynomial of high order over a odd-sized window centered at
-    the point.
-    Examples
-    --------
-    t = np.linspace(-4, 4, 500)
-    y = np.exp( -t**2 ) + np.random.default_rng().normal(0, 0.05, t.shape)
-    ysg = savitzky_golay(y, window_size=31, order=4)
-    import matplotlib.pyplot as plt
-    plt.plot(t, y, label='Noisy signal')
-    plt.plot(t, np.exp(-t**2), 'k', lw=1.5, label='Original signal')
-    plt.plot(t, ysg, 'r', label='Filtered signal')
-    plt.legend()
-    plt.show()
-    References
-    ----------
-    .. [1] A. Savitzky, M. J. E. Golay, Smoothing and Differentiation of
-       Data by Simplified Least Squares Procedures. Analytical
-       Chemistry, 1964, 36 (8), pp 1627-1639.
-    .. [2] Numerical Recipes 3rd Edition: The Art of Scientific Computing
-       W.H. Press, S.A. Teukolsky, W.T. Vetterling, B.P. Flannery
-       Cambridge University Press ISBN-13: 9780521880688
-    """
-    try:
-        window_size = np.abs(int(window_size))
-        order = np.abs(int(order))
-    except ValueError as _msg:
-        raise ValueError(f"window_size and order have to be of type int: {_msg}")
-    if window_size % 2 != 1 or window_size < 1:
-        raise TypeError("window_size size must be a positive odd number")
-    if window_size < order + 2:
-        raise TypeError("window_size is too small for the polynomials order")
-    order_range = range(order + 1)
-    half_window = (window_size - 1) // 2
-    # precompute coefficients
-    b = np.asmatrix([[k**i for i in order_range] for k in range(-half_window, half_window + 1)])
-    m = np.linalg.pinv(b).A[deriv]
-    # pad the signal at the extremes with
-    # values taken from the signal itself
-    firstvals = y[0] - np.abs(y[1:half_window + 1][::-1] - y[0])
-    lastvals = y[-1] + np.abs(y[-half_window - 1:-1][::-1] - y[-1])
-    y = np.concatenate((firstvals, y, lastvals))
-    return np.convolve(m, y, mode='valid')
-
-
-def find_range_randomly(A, nl, q=1):
-    """Find approximate range of matrix A using nl random vectors and
-    with q power iterations (q>=0). Based on Halko Martinsson & Tropp Algorithm 4.3
-
-    Suggest q=1 or larger particularly when the singular values of A decay slowly
-    enough that the singular vectors associated with the smaller singular values
-    are interfering with the computation.
-
-    See "Finding structure with randomness: Probabilistic algorithms for constructing
-    approximate matrix decompositions." by N Halko, P Martinsson, and J Tropp. *SIAM
-    Review* v53 #2 (2011) pp217-288. http://epubs.siam.org/doi/abs/10.1137/090771806
-    """
-    if q < 0:
-        msg = f"The number of power iterations q={q} needs to be at least 0"
-        raise ValueError(msg)
-    A = np.asarray(A)
-    _m, n = A.shape
-    Omega = rng.standard_normal((n, nl))
-    Y = np.dot(A, Omega)
-    for _ in range(q):
-        Y = np.dot(A.T, Y)
-        Y = np.dot(A, Y)
-    Q, _R = np.linalg.qr(Y)
-    return Q
-
-
-def find_svd_randomly(A, nl, q=2):
-    """Find approximate SVD of matrix A using nl random vectors and
-    with q power iterations. Based on Halko Martinsson & Tropp Algorithm 5.1
-
-    See "Finding structure with randomness: Probabilistic algorithms for constructing
-    approximate matrix decompositions." by N Halko, P Martinsson, and J Tropp. *SIAM
-    Review* v53 #2 (2011) pp217-288. http://epubs.siam.org/doi/abs/10.1137/090771806
-    """
-    Q = find_range_randomly(A, nl, q=q)
-    B = np.dot(Q.T, A)
-    u_b, w, v = np.linalg.svd(B, 0)
-    u = np.dot(Q, u_b)
-    return u, w, v
+"""
+mass.mathstat.utilities
+
+Several math and plotting utilities:
+* plot_as_stepped_hist
+* plot_stepped_hist_poisson_errors
+* savitzky_golay
+* CheckForMissingLibrary class
+
+Joe Fowler, NIST
+
+Started March 24, 2011
+"""
+
+import math
+import numpy as np
+
+__all__ = ['plot_as_stepped_hist', 'plot_stepped_hist_poisson_errors', 'savitzky_golay',
+           'find_svd_randomly', 'find_range_randomly']
+
+# Create a module-local RNG. If you need to seed it to achieve repeatable tests,
+# you can replace this.
+rng = np.random.default_rng()
+
+
+class CheckForMissingLibrary:
+    """Class to raise ImportError only after python tries to use the import.
+
+    Intended for use with shared objects built from Fortran or Cython source.
+    """
+
+    def __init__(self, libname):
+        self.libname = libname
+        self.error = ImportError(f"""This copy of Mass could not import the compiled '{self.libname}'
+This happens when you run from a source tree, among other possibilities.  You can
+either try using an installed version or do a 'python setup.py build' and copy
+the .so file from build/lib*/mass/mathstat/ to mass/mathstat/  Note that this is
+a delayed error.  If it is raised, then you know that you needed the library!""")
+
+    def __getattr__(self, attr):
+        raise self.error
+
+
+def plot_as_stepped_hist(axis, data, bins, **kwargs):
+    """Plot data in stepped-histogram format.
+
+    Args:
+        axis: The pylab Axes object to plot onto.
+        data: Bin contents.
+        bins: An array of bin centers or of bin edges.  (Bin spacing will be
+            inferred from the first two elements).  If len(bin_ctrs) == len(data)+1, then
+            bin_ctrs will be assumed to be bin edges; otherwise it will be assumed to be
+            the bin centers.
+        **kwargs: All other keyword arguments will be passed to axis.plot().
+    """
+    if len(bins) == len(data) + 1:
+        bin_edges = bins
+        x = np.zeros(2 * len(bin_edges), dtype=float)
+        x[0::2] = bin_edges
+        x[1::2] = bin_edges
+    else:
+        x = np.zeros(2 + 2 * len(bins), dtype=float)
+        dx = bins[1] - bins[0]
+        x[0:-2:2] = bins - dx * .5
+        x[1:-2:2] = bins - dx * .5
+        x[-2:] = bins[-1] + dx * .5
+
+    y = np.zeros_like(x)
+    y[1:-1:2] = data
+    y[2:-1:2] = data
+    axis.plot(x, y, **kwargs)
+    axis.set_xlim([x[0], x[-1]])
+
+
+def plot_stepped_hist_poisson_errors(axis, counts, bin_ctrs, scale=1.0, offset=0.0, **kwargs):
+    """Use plot_as_stepped_hist to plot a histogram, where also
+    an error band is plotted, assuming data are Poisson-distributed.
+
+    Args:
+        axis: The pylab Axes object to plot onto.
+        data: Bin contents.
+        bin_ctrs: An array of bin centers or of bin edges.  (Bin spacing will be
+            inferred from the first two elements).  If len(bin_ctrs) == len(data)+1, then
+            bin_ctrs will be assumed to be bin edges; otherwise it will be assumed to be
+            the bin centers.
+        scale: Plot counts*scale+offset if you need to convert counts to some physical units.
+        offset: Plot counts*scale+offset if you need to convert counts to some physical units.
+        **kwargs: All other keyword arguments will be passed to axis.plot().
+    """
+    if len(bin_ctrs) == len(counts) + 1:
+        bin_ctrs = 0.5 * (bin_ctrs[1:] + bin_ctrs[:-1])
+    elif len(bin_ctrs) != len(counts):
+        raise ValueError("bin_ctrs must be either the same length as counts, or 1 longer.")
+    smooth_counts = savitzky_golay(counts * scale, 7, 4)
+    errors = np.sqrt(counts) * scale
+    fill_lower = smooth_counts - errors
+    fill_upper = smooth_counts + errors
+    fill_lower[fill_lower < 0] = 0
+    fill_upper[fill_upper < 0] = 0
+    axis.fill_between(bin_ctrs, fill_lower + offset, fill_upper + offset, alpha=0.25, **kwargs)
+    plot_as_stepped_hist(axis, counts * scale + offset, bin_ctrs, **kwargs)
+
+
+def savitzky_golay(y, window_size, order, deriv=0):
+    r"""Smooth (and optionally differentiate) data with a Savitzky-Golay filter.
+
+    The Savitzky-Golay filter removes high frequency noise from data.
+    It has the advantage of preserving the original shape and
+    features of the signal better than other types of filtering
+    approaches, such as moving averages techhniques.
+    Parameters
+    ----------
+    y : array_like, shape (N,)
+        the values of the time history of the signal.
+    window_size : int
+        the length of the window. Must be an odd integer number.
+    order : int
+        the order of the polynomial used in the filtering.
+        Must be less then `window_size` - 1.
+    deriv: int
+        the order of the derivative to compute (default = 0 means only smoothing)
+    Returns
+    -------
+    ys : ndarray, shape (N)
+        the smoothed signal (or it's n-th derivative).
+    Notes
+    -----
+    The Savitzky-Golay is a type of low-pass filter, particularly
+    suited for smoothing noisy data. The main idea behind this
+    approach is to make for each point a least-square fit with a
+    polynomial of high order over a odd-sized window centered at
+    the point.
+    Examples
+    --------
+    t = np.linspace(-4, 4, 500)
+    y = np.exp( -t**2 ) + np.random.default_rng().normal(0, 0.05, t.shape)
+    ysg = savitzky_golay(y, window_size=31, order=4)
+    import matplotlib.pyplot as plt
+    plt.plot(t, y, label='Noisy signal')
+    plt.plot(t, np.exp(-t**2), 'k', lw=1.5, label='Original signal')
+    plt.plot(t, ysg, 'r', label='Filtered signal')
+    plt.legend()
+    plt.show()
+    References
+    ----------
+    .. [1] A. Savitzky, M. J. E. Golay, Smoothing and Differentiation of
+       Data by Simplified Least Squares Procedures. Analytical
+       Chemistry, 1964, 36 (8), pp 1627-1639.
+    .. [2] Numerical Recipes 3rd Edition: The Art of Scientific Computing
+       W.H. Press, S.A. Teukolsky, W.T. Vetterling, B.P. Flannery
+       Cambridge University Press ISBN-13: 9780521880688
+    """
+    try:
+        window_size = np.abs(int(window_size))
+        order = np.abs(int(order))
+    except ValueError as _msg:
+        raise ValueError(f"window_size and order have to be of type int: {_msg}")
+    if window_size % 2 != 1 or window_size < 1:
+        raise TypeError("window_size size must be a positive odd number")
+    if window_size < order + 2:
+        raise TypeError("window_size is too small for the polynomials order")
+    order_range = range(order + 1)
+    half_window = (window_size - 1) // 2
+    # precompute coefficients
+    b = np.asmatrix([[k**i for i in order_range] for k in range(-half_window, half_window + 1)])
+    # (in reverse order, because they will be convolved with the signal)
+    m = np.linalg.pinv(b).A[deriv][::-1] * math.factorial(deriv)
+    # pad the signal at the extremes with
+    # values taken from the signal itself
+    firstvals = y[0] - np.abs(y[1:half_window + 1][::-1] - y[0])
+    lastvals = y[-1] + np.abs(y[-half_window - 1:-1][::-1] - y[-1])
+    y = np.concatenate((firstvals, y, lastvals))
+    return np.convolve(m, y, mode='valid')
+
+
+def find_range_randomly(A, nl, q=1):
+    """Find approximate range of matrix A using nl random vectors and
+    with q power iterations (q>=0). Based on Halko Martinsson & Tropp Algorithm 4.3
+
+    Suggest q=1 or larger particularly when the singular values of A decay slowly
+    enough that the singular vectors associated with the smaller singular values
+    are interfering with the computation.
+
+    See "Finding structure with randomness: Probabilistic algorithms for constructing
+    approximate matrix decompositions." by N Halko, P Martinsson, and J Tropp. *SIAM
+    Review* v53 #2 (2011) pp217-288. http://epubs.siam.org/doi/abs/10.1137/090771806
+    """
+    if q < 0:
+        msg = f"The number of power iterations q={q} needs to be at least 0"
+        raise ValueError(msg)
+    A = np.asarray(A)
+    _m, n = A.shape
+    Omega = rng.standard_normal((n, nl))
+    Y = np.dot(A, Omega)
+    for _ in range(q):
+        Y = np.dot(A.T, Y)
+        Y = np.dot(A, Y)
+    Q, _R = np.linalg.qr(Y)
+    return Q
+
+
+def find_svd_randomly(A, nl, q=2):
+    """Find approximate SVD of matrix A using nl random vectors and
+    with q power iterations. Based on Halko Martinsson & Tropp Algorithm 5.1
+
+    See "Finding structure with randomness: Probabilistic algorithms for constructing
+    approximate matrix decompositions." by N Halko, P Martinsson, and J Tropp. *SIAM
+    Review* v53 #2 (2011) pp217-288. http://epubs.siam.org/doi/abs/10.1137/090771806
+    """
+    Q = find_range_randomly(A, nl, q=q)
+    B = np.dot(Q.T, A)
+    u_b, w, v = np.linalg.svd(B, 0)
+    u = np.dot(Q, u_b)
+    return u, w, v
-- 
2.43.0


From 4e0dc612d02d0126dbe6b508dfd751ba1cdd84fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:04 +0000
Subject: [PATCH 152/199] fix: learnResidualStdDevCut does not cut all pulses
 next to a range of filtValue with few or no pulses

---
 mass/off/channels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 5da26f3..c8a17f3 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -269,13 +269,13 @@ class Channel(CorG):  # noqa: PLR0904
         for i in range(N):
             lo, hi = binEdges[i], binEdges[i + 1]
             inds = np.logical_and(filtValue > lo, filtValue < hi)
-            if len(inds) <= 4:
+            if inds.sum() <= 4:
                 continue
             _mad, sigma_equiv, median = mass.off.util.median_absolute_deviation(residualStdDev[inds])
             sigmas.append(sigma_equiv)
             medians.append(median)
             fv_mids.append((lo + hi) / 2)
-        if len(sigmas) < 1:
+        if len(sigmas) < 2:
             raise Exception(f"too few pulses, len(filtValue)={len(filtValue)}")
         sigmas = np.array(sigmas)
         medians = np.array(medians)
-- 
2.43.0


From 4bbabb5aac453656a02e817f3650a094abfaafb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:04 +0000
Subject: [PATCH 153/199] fix: OFF linefit results in energies are labelled eV,
 not arbs

---
 mass/off/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index c8a17f3..253f5ac 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -156,7 +156,7 @@ class CorG:
         if attr_is_energy:
             params["dph_de"].set(1.0, vary=False)
             unit_str = "eV"
-        if calibration is None:
+        else:
             unit_str = "arbs"
         if calibration is not None:
             attr_str = f"{attr} with cal"
-- 
2.43.0


From 98de556bb877452ad9f7af16cabb232da0f24179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:22 +0000
Subject: [PATCH 154/199] fix: the group's plot_summaries can plot all pulses
 (valid None or 'all'), not only the cut or uncut ones

---
 mass/core/channel_group.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index bf230ba..c659afd 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -789,6 +789,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         for i, (channum, ds) in enumerate(zip(channel_numbers, datasets)):
 
             # Convert "uncut" or "cut" to array of all good or all bad data
+            valid_mask = None
             if isstr(valid):
                 if "uncut" in valid.lower():
                     valid_mask = ds.cuts.good()
@@ -822,7 +823,9 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
                 limits = hist_limits
 
             # Vectors are being sampled and multiplied, so eval() is needed.
-            vect = eval(f"ds.{vect}")[valid_mask]
+            vect = eval(f"ds.{vect}")[:]
+            if valid_mask is not None:
+                vect = vect[valid_mask]
 
             # Scatter plots on left half of figure
             if i == 0:
-- 
2.43.0


From 40e56670cdf066866ea7f72bc03c7ae431cdad0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:22 +0000
Subject: [PATCH 155/199] fix: the group's plot_summaries downsamples each
 channel by its own number of pulses, not by the first channel's

---
 mass/core/channel_group.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index c659afd..2bf2cab 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -806,14 +806,12 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
 
             if valid_mask is not None:
                 nrecs = valid_mask.sum()
-                if downsample is None:
-                    downsample = max(nrecs // 10000, 1)
-                hour = ds.p_timestamp[valid_mask][::downsample] / 3600.0
+                down = downsample or max(nrecs // 10000, 1)
+                hour = ds.p_timestamp[valid_mask][::down] / 3600.0
             else:
                 nrecs = ds.nPulses
-                if downsample is None:
-                    downsample = max(ds.nPulses // 10000, 1)
-                hour = ds.p_timestamp[::downsample] / 3600.0
+                down = downsample or max(nrecs // 10000, 1)
+                hour = ds.p_timestamp[::down] / 3600.0
             LOG.info("Chan %3d (%d records; %d in scatter plots)", channum, nrecs, hour.shape[0])
 
             (vect, label, color, default_limits) = plottable
@@ -834,7 +832,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
                 plt.subplot(ny_plots, 2, 1 + i * 2, sharex=ax_master)
 
             if len(vect) > 0:
-                plt.plot(hour - hour_offset, vect[::downsample], '.', ms=1, color=color)
+                plt.plot(hour - hour_offset, vect[::down], '.', ms=1, color=color)
             else:
                 plt.text(.5, .5, 'empty', ha='center', va='center', size='large',
                          transform=plt.gca().transAxes)
-- 
2.43.0


From 23eded3064795a76983062de997418146e675688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:22 +0000
Subject: [PATCH 156/199] fix: plots of average pulses, filters and noise are
 drawn on the axes given, not on matplotlib's current ones

---
 mass/core/channel.py       |  2 +-
 mass/core/channel_group.py | 26 +++++++++++++-------------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index ab497cd..a908d02 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -273,7 +273,7 @@ class NoiseRecords:
             yvalue = np.sqrt(yvalue)
         freq = np.arange(1, 1 + len(yvalue)) / (2 * len(yvalue) * self.timebase)
         axis.plot(freq, yvalue, **kwarg)
-        plt.loglog()
+        axis.loglog()
         axis.grid()
         axis.set_xlim([10, 3e5])
         axis.set_xlabel("Frequency (Hz)")
diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 2bf2cab..03558e9 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -976,15 +976,15 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             if fcut is not None:
                 avg_pulse = mass.core.analysis_algorithms.filter_signal_lowpass(
                     avg_pulse, 1. / self.timebase, fcut)
-            plt.plot(dt, avg_pulse, label=f"Chan {ds.channum}", color=cmap(float(i) / nplot))
+            axis.plot(dt, avg_pulse, label=f"Chan {ds.channum}", color=cmap(float(i) / nplot))
 
-        plt.title("Average pulse for each channel when it is hit")
+        axis.set_title("Average pulse for each channel when it is hit")
 
-        plt.xlabel("Time past trigger (ms)")
-        plt.ylabel("Raw counts")
-        plt.xlim([dt[0], dt[-1]])
+        axis.set_xlabel("Time past trigger (ms)")
+        axis.set_ylabel("Raw counts")
+        axis.set_xlim([dt[0], dt[-1]])
         if legend:
-            plt.legend(loc='best')
+            axis.legend(loc='best')
             if nplot > 12:
                 ltext = axis.get_legend().get_texts()
                 plt.setp(ltext, fontsize='small')
@@ -1014,12 +1014,12 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             ds = self.channel[channum]
             if ds.filter is None:
                 continue
-            plt.plot(ds.filter.values, label=f"Chan {ds.channum}",
-                     color=cmap(float(ds_num) / len(channels)))
+            axis.plot(ds.filter.values, label=f"Chan {ds.channum}",
+                      color=cmap(float(ds_num) / len(channels)))
 
-        plt.xlabel("Sample number")
+        axis.set_xlabel("Sample number")
         if legend:
-            plt.legend(loc='best')
+            axis.legend(loc='best')
             if len(channels) > 12:
                 ltext = axis.get_legend().get_texts()
                 plt.setp(ltext, fontsize='small')
@@ -1078,9 +1078,9 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             noise = ds.noise_records
             noise.plot_autocorrelation(axis=axis, label=f'Chan {channum}',
                                        color=cmap(float(ds_num) / len(channels)))
-        plt.xlabel("Time lag (ms)")
+        axis.set_xlabel("Time lag (ms)")
         if legend:
-            plt.legend(loc='best')
+            axis.legend(loc='best')
             if len(channels) > 12:
                 ltext = axis.get_legend().get_texts()
                 plt.setp(ltext, fontsize='small')
@@ -1171,7 +1171,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         axis.set_xlabel("Frequency (Hz)")
         axis.loglog()
         if legend:
-            plt.legend(loc='best')
+            axis.legend(loc='best')
             if nplot > 12:
                 ltext = axis.get_legend().get_texts()
                 plt.setp(ltext, fontsize='small')
-- 
2.43.0


From 06814a9ea632a58897fdc6e3551216e3eb4cbbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:22 +0000
Subject: [PATCH 157/199] fix: plot_noise labels root spectra as such, and its
 frequency range holds every channel plotted

---
 mass/core/channel_group.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 03558e9..5a6b8d0 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -1140,14 +1140,13 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             units = "Scaled counts"
 
         axis.grid(True)
+        fmax = 0.0
+        fmin = 1e20
         for i, ds in enumerate(dsets):
             channum = ds.channum
             yvalue = ds.noise_psd[:] * scale_factor**2
-            fmax = 0.0
-            fmin = 1e20
             if sqrt_psd:
                 yvalue = np.sqrt(yvalue)
-                axis.set_ylabel(f"PSD$^{1 / 2}$ ({units}/Hz$^{1 / 2}$)")
             try:
                 df = ds.noise_psd.attrs['delta_f']
                 freq = np.arange(len(yvalue)) * df
@@ -1167,7 +1166,10 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         if fmax == 0:
             raise ValueError("No datasets plotted successfully")
         axis.set_xlim((fmin, fmax))
-        axis.set_ylabel(f"Power Spectral Density ({units}^2/Hz)")
+        if sqrt_psd:
+            axis.set_ylabel(f"PSD$^{{1/2}}$ ({units}/Hz$^{{1/2}}$)")
+        else:
+            axis.set_ylabel(f"Power Spectral Density ({units}^2/Hz)")
         axis.set_xlabel("Frequency (Hz)")
         axis.loglog()
         if legend:
-- 
2.43.0


From 451d88384ac3eaf20475aec8a085fcd8e4c2bda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:22 +0000
Subject: [PATCH 158/199] fix: report() does not fail for all channels when one
 has no good pulses

---
 mass/core/channel_group.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 5a6b8d0..b87b714 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -1044,7 +1044,10 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         """Report on the number of data points and similar."""
         for ds in self.datasets:
             good = ds.cuts.good()
-            ng = ds.cuts.good().sum()
+            ng = good.sum()
+            if ng == 0:
+                print(f"chan {ds.channum:3d} {ng:6d} good pulses")
+                continue
             dt = (ds.p_timestamp[good][-1] * 1.0 - ds.p_timestamp[good][0])  # seconds
             npulse = np.arange(len(good))[good][-1] - good.argmax() + 1
             rate = (npulse - 1.0) / dt
-- 
2.43.0


From 7dbe6aea7457e0a0675c3e1bce44c6daa1f84fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:46 +0000
Subject: [PATCH 159/199] fix: crosstalk flags can be computed (not with h5py's
 old .value), from the neighbors in all categories

---
 mass/core/channel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index a908d02..521a887 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2403,13 +2403,13 @@ class MicrocalDataSet:  # noqa: PLR0904
                     # Loop through nearest neighbor categories
                     for neighborCategory in self.hdf5_group[nn_channel_key]:
                         subgroupName = nn_channel_key + '/' + neighborCategory
-                        subgroupNeighbors = self.hdf5_group[subgroupName + '/neighbors_list'].value
+                        subgroupNeighbors = self.hdf5_group[subgroupName + '/neighbors_list'][()]
                         # Remove duplicates, sort
                         selectNeighbors = subgroupNeighbors[:, 0][np.isin(
                             subgroupNeighbors[:, 2], nearestNeighborsDistances)]
                         combinedNearestNeighbors = np.unique(
                             np.append(combinedNearestNeighbors, selectNeighbors).astype(int))
-                    if np.sum(np.isin(self.tes_group.channel.keys(), selectNeighbors)) > 0:
+                    if np.sum(np.isin(list(self.tes_group.channel), combinedNearestNeighbors)) > 0:
                         h5grp[crosstalk_key][:] = crosstalk_flagging_loop(combinedNearestNeighbors)
                     else:
                         msg = f"Channel {self.channum} skipping crosstalk cuts: no nearest neighbors matching criteria"
@@ -2419,10 +2419,10 @@ class MicrocalDataSet:  # noqa: PLR0904
                     for neighborCategory in self.hdf5_group[nn_channel_key]:
                         categoryField = str(crosstalk_key + '_' + neighborCategory)
                         subgroupName = nn_channel_key + '/' + neighborCategory
-                        subgroupNeighbors = self.hdf5_group[subgroupName + '/neighbors_list'].value
+                        subgroupNeighbors = self.hdf5_group[subgroupName + '/neighbors_list'][()]
                         selectNeighbors = subgroupNeighbors[:, 0][np.isin(
                             subgroupNeighbors[:, 2], nearestNeighborsDistances)]
-                        if np.sum(np.isin(self.tes_group.channel.keys(), selectNeighbors)) > 0:
+                        if np.sum(np.isin(list(self.tes_group.channel), selectNeighbors)) > 0:
                             LOG.info(f'Checking crosstalk between channel {self.channum} and {neighborCategory} neighbors...')
                             h5grp[categoryField][:] = crosstalk_flagging_loop(selectNeighbors)
                             h5grp[crosstalk_key][:] = np.logical_or(
-- 
2.43.0


From 770c8e7c2053fafcefcec7d968387b76a871b9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:46 +0000
Subject: [PATCH 160/199] fix: crosstalk flags are right for pulses so close
 that their veto windows overlap

---
 mass/core/channel.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 521a887..293d7c0 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2356,13 +2356,12 @@ class MicrocalDataSet:  # noqa: PLR0904
                 # Combine the pulses from all neighboring channels into a single array
                 compareChannelsPulsesList = np.append(compareChannelsPulsesList,
                                                       dsToCompare.p_subframecount[:] * dsToCompare.subframe_timebase)
-            # Create a histogram of the neighboring channel pulses using the bin edges from the channel you are flagging
-            hist, _bin_edges = np.histogram(compareChannelsPulsesList, bins=combinedEdges)
-            # Even corresponds to bins with a photon in channel 1 (crosstalk), odd are empty bins (no crosstalk)
-            badCountsHist = hist[::2]
-            # Even only histogram indices map directly to previously good flagged pulse indices for victim channel
-            crosstalking_pulses = badCountsHist > 0.0
-            return crosstalking_pulses
+            # A pulse is crosstalking if any neighboring pulses are between its start and stop edge. (Edges of
+            # successive pulses may overlap.)
+            compareChannelsPulsesList.sort()
+            firstAfterStart = np.searchsorted(compareChannelsPulsesList, startEdges, side="left")
+            firstAfterStop = np.searchsorted(compareChannelsPulsesList, stopEdges, side="right")
+            return firstAfterStop > firstAfterStart
 
         # Check to see if nearest neighbors list has already been set, otherwise skip
         nn_channel_key = 'nearest_neighbors'
@@ -2388,13 +2387,12 @@ class MicrocalDataSet:  # noqa: PLR0904
                 priorTime /= 1000.0
                 postTime /= 1000.0
 
-                # Create uneven histogram edges, with a specified amount of time before and after a photon event
+                # Find edges a specified amount of time before and after each photon event
                 pulseTimes = self.p_subframecount[:] * self.subframe_timebase
 
                 # Create start and stop edges around pulses corresponding to veto times
                 startEdges = pulseTimes - priorTime
                 stopEdges = pulseTimes + postTime
-                combinedEdges = np.sort(np.append(startEdges, stopEdges))
 
                 if combineCategories:
                     LOG.info('Checking crosstalk between channel %d and combined neighbors...', self.channum)
-- 
2.43.0


From c2395ed94fc3fe93075a1eb6f0a187131c931902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:28 +0000
Subject: [PATCH 161/199] fix: a neighbor that was never summarized does not
 make crosstalk flagging fail (and its neighbors bad)

---
 mass/core/channel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 293d7c0..c5d8244 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2353,6 +2353,8 @@ class MicrocalDataSet:  # noqa: PLR0904
                 if compare_channum not in self.tes_group.channel:
                     continue
                 dsToCompare = self.tes_group.channel[compare_channum]
+                if dsToCompare.subframe_timebase is None:  # never summarized, so pulse times are unknown
+                    continue
                 # Combine the pulses from all neighboring channels into a single array
                 compareChannelsPulsesList = np.append(compareChannelsPulsesList,
                                                       dsToCompare.p_subframecount[:] * dsToCompare.subframe_timebase)
-- 
2.43.0


From 011a03c09b93130440b74cf8487b40e5c5da844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:28 +0000
Subject: [PATCH 162/199] fix: plot_summary_pages and plot_histogram_pages can
 be used (names of the files, format and range were mixed up)

---
 mass/core/channel_group.py | 16 ++++++++--------
 mass/core/utilities.py     |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index b87b714..d40abcf 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -1268,11 +1268,11 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
                       via `apt-get install imagemagick`.
         '''
         if suffix is None:
-            suffix = os.path.basename(self.channels[0].datafile.filename)[:15]
+            suffix = os.path.basename(self.datasets[0].filename)[:15]
 
-        filename_template_per_file = f'{y_attr}.vs.{x_attr}-{suffix}-%%03d.{fileformat}'
+        filename_template_per_file = f'{y_attr}.vs.{x_attr}-{suffix}-%03d.{fileformat}'
         filename_template_glob = f'{y_attr}.vs.{x_attr}-{suffix}-[0-9][0-9][0-9].{fileformat}'
-        filename_one_file = f'{y_attr}.vs.{x_attr}-{suffix}.pdf' % (y_attr, x_attr, suffix)
+        filename_one_file = f'{y_attr}.vs.{x_attr}-{suffix}.pdf'
 
         def helper(ds, ax):
             ch = ds.channum
@@ -1311,7 +1311,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             plt.title(f'MATTER Chan {ch}', fontsize=10)
 
         plot_multipage(self, subplot_shape, helper, filename_template_per_file,
-                       filename_template_glob, filename_one_file, format, one_file)
+                       filename_template_glob, filename_one_file, fileformat, one_file)
 
     def plot_histogram_pages(self, attr, valrange, bins, y_range=None, subplot_shape=(3, 4),  # noqa: PLR0917
                              suffix=None, lines=None, fileformat='png', one_file=False):
@@ -1347,9 +1347,9 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
                       via `apt-get install imagemagick`.
         '''
         if suffix is None:
-            suffix = os.path.basename(self.channels[0].datafile.filename)[:15]
+            suffix = os.path.basename(self.datasets[0].filename)[:15]
 
-        filename_template_per_file = f'{attr}-hist-{suffix}-%%03d.{fileformat}'
+        filename_template_per_file = f'{attr}-hist-{suffix}-%03d.{fileformat}'
         filename_template_glob = f'{attr}-hist-{suffix}-[0-9][0-9][0-9].{fileformat}'
         filename_one_file = f'{attr}-hist-{suffix}.pdf'
 
@@ -1360,7 +1360,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             # I generally prefer the "stepped" histtype, but that seems to interact
             # poorly with log scale - the automatic choice of axis limits gets
             # screwed up.
-            plt.hist(x_g, range=range, bins=bins, histtype='bar')
+            plt.hist(x_g, range=valrange, bins=bins, histtype='bar')
             plt.yscale('log')
 
             if lines is not None:
@@ -1378,7 +1378,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             plt.title(f'MATTER Ch{ds.channum}', fontsize=10)
 
         plot_multipage(self, subplot_shape, helper, filename_template_per_file,
-                       filename_template_glob, filename_one_file, format, one_file)
+                       filename_template_glob, filename_one_file, fileformat, one_file)
 
     def hists(self, bin_edges, attr="p_energy", t0=0, tlast=1e20, category={}, g_func=None):
         """return a tuple of (bin_centers, countsdict). automatically filters out nan values
diff --git a/mass/core/utilities.py b/mass/core/utilities.py
index f4240b3..bc2969f 100644
--- a/mass/core/utilities.py
+++ b/mass/core/utilities.py
@@ -141,7 +141,7 @@ def plot_multipage(data, subplot_shape, helper, filename_template_per_file,
         helper(ds, ax)
 
         if ((k + 1) % (m * n)) == 0:
-            plt.tight_layout(True)
+            plt.tight_layout()
             if format == 'pdf' and one_file:
                 pdf.savefig()
             else:
@@ -150,7 +150,7 @@ def plot_multipage(data, subplot_shape, helper, filename_template_per_file,
 
     # If final page is not full of plots, it hasn't yet been saved, so need to save it.
     if ((k + 1) % (m * n) != 0):
-        plt.tight_layout(True)
+        plt.tight_layout()
         if format == 'pdf' and one_file:
             pdf.savefig()
         else:
-- 
2.43.0


From b6bbaec0e981b76af4f11d16ccbdce16fe179bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:49 +0000
Subject: [PATCH 163/199] fix: lines can be drawn on summary pages of channels
 without cut (or without good) pulses

---
 mass/core/channel_group.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index d40abcf..e63ebab 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -1292,8 +1292,9 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             plt.plot(x_g, y_g, '.', markersize=2.5, color='blue')
 
             if lines is not None:
-                x_lo = min(np.amin(x_g), np.amin(x_b))
-                x_hi = max(np.amax(x_g), np.amax(x_b))
+                x_all = np.hstack((x_g, x_b))
+                x_lo = np.amin(x_all)
+                x_hi = np.amax(x_all)
                 for line in lines[ch]:
                     plt.plot([x_lo, x_hi], [line, line], '--k')
 
-- 
2.43.0


From 87ef83f814173b32c2e76cd57cdd8fe7c303df3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:08 +0000
Subject: [PATCH 164/199] fix: recomputing the crosstalk flags (forceNew) does
 not keep the old ones

---
 mass/core/channel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index c5d8244..81c3463 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2385,6 +2385,12 @@ class MicrocalDataSet:  # noqa: PLR0904
             # Check to see if crosstalk list has already been written and skip, unless forceNew
             if (not np.any(h5grp[crosstalk_key][:]) or forceNew):
 
+                # Forget the flags of any earlier computation
+                h5grp[crosstalk_key][:] = False
+                if not combineCategories:
+                    for neighborCategory in self.hdf5_group[nn_channel_key]:
+                        h5grp[f"{crosstalk_key}_{neighborCategory}"][:] = False
+
                 # Convert from ms input to s used in rest of MASS
                 priorTime /= 1000.0
                 postTime /= 1000.0
-- 
2.43.0


From 7c39c3d6707c65de571b889a6085825985efc645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:39 +0000
Subject: [PATCH 165/199] fix: nearest neighbors can be recomputed from a map
 of another size, or found from a map of one channel

---
 mass/core/channel.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 81c3463..bf59ec5 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2526,14 +2526,17 @@ class MicrocalDataSet:  # noqa: PLR0904
                 return np.array([], dtype=int)
 
         # Load channel numbers and positions from map file, define number of dimensions
-        mapData = np.loadtxt(mapFilename, dtype=int)
+        mapData = np.loadtxt(mapFilename, dtype=int, ndmin=2)
         channelNumbers = np.array(mapData[:, 0], dtype=int)
         positionValues = mapData[:, 1:]
         nDims = positionValues.shape[1]
 
         # Set up hdf5 group and repopulate arrays, if already calculated earlier
         h5grp = self.hdf5_group.require_group('nearest_neighbors')
-        h5grp.require_group(nearestNeighborCategory)
+        hnnc = h5grp.require_group(nearestNeighborCategory)
+        for name, shape in (('position', (nDims,)), ('neighbors_list', (len(channelNumbers), 3))):
+            if forceNew and name in hnnc and hnnc[name].shape != shape:
+                del hnnc[name]  # it was made from a different map
 
         # Victim channel position dataset
         self.__dict__[f'position_{nearestNeighborCategory}'] = \
@@ -2541,7 +2544,6 @@ class MicrocalDataSet:  # noqa: PLR0904
                 'position', shape=(nDims,), dtype=np.int64)
 
         # Perpetrator channels dataset
-        hnnc = h5grp[nearestNeighborCategory]
         self.__dict__[f'neighbors_list_{nearestNeighborCategory}'] = \
             hnnc.require_dataset('neighbors_list', shape=((len(channelNumbers), 3)),
                                  dtype=np.int64)
-- 
2.43.0


From 3a7c8739517548f2512c9ceb74f123d0253861ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:39 +0000
Subject: [PATCH 166/199] fix: CrosstalkVeto vetoes hits of over 127 channels
 at once, and no times outside its range

---
 mass/core/channel_group.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index e63ebab..63f4fcf 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -1464,9 +1464,10 @@ class CrosstalkVeto:
         self.n_channels = datagroup.n_channels
         self.n_pulses = datagroup.nPulses
 
-        ms0 = np.array([ds.p_timestamp[0] for ds in datagroup.datasets]).min() * 1e3 + window_ms[0]
-        ms9 = np.array([ds.p_timestamp[-1] for ds in datagroup.datasets]).max() * 1e3 + window_ms[1]
-        self.nhits = np.zeros(int(ms9 - ms0 + 1), dtype=np.int8)
+        ms0 = np.array([ds.p_timestamp[0] for ds in datagroup.datasets]).min() * 1e3 + min(window_ms[0], 0)
+        ms9 = np.array([ds.p_timestamp[-1] for ds in datagroup.datasets]).max() * 1e3 + max(window_ms[1], 0)
+        # Hits in more channels than an int8 can count may coincide.
+        self.nhits = np.zeros(int(ms9 - ms0 + 1) + 9, dtype=np.int32)
         self.time0 = ms0
 
         for ds in datagroup.datasets:
@@ -1493,5 +1494,6 @@ class CrosstalkVeto:
     def veto(self, times_sec):
         """Return boolean vector for whether a given moment is vetoed.  Times are given in
         seconds.  Resolution is 1 ms for the veto."""
-        index = np.asarray(times_sec * 1e3 - self.time0 + 0.5, dtype=int)
-        return self.nhits[index] > 1
+        index = np.asarray(np.floor(np.asarray(times_sec) * 1e3 - self.time0 + 0.5), dtype=int)
+        inside = np.logical_and(index >= 0, index < len(self.nhits))
+        return np.logical_and(inside, self.nhits[np.where(inside, index, 0)] > 1)
-- 
2.43.0


From b4033d58a67968108f75b9c471c59df9ee88cbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:18 +0000
Subject: [PATCH 167/199] fix: savitzky_golay accepts lists, and is right at
 the ends of unsigned integer data

---
 mass/mathstat/utilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mass/mathstat/utilities.py b/mass/mathstat/utilities.py
index 25e96e3..1536f70 100644
--- a/mass/mathstat/utilities.py
+++ b/mass/mathstat/utilities.py
@@ -159,6 +159,7 @@ def savitzky_golay(y, window_size, order, deriv=0):
         raise TypeError("window_size size must be a positive odd number")
     if window_size < order + 2:
         raise TypeError("window_size is too small for the polynomials order")
+    y = np.asarray(y, dtype=float)  # (differences of unsigned integers would wrap around)
     order_range = range(order + 1)
     half_window = (window_size - 1) // 2
     # precompute coefficients
-- 
2.43.0


From a9699ed4b365ebef9e1b02a76809376c13653c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:18 +0000
Subject: [PATCH 168/199] fix: annotate_lines scales labels to the axis they
 are put on, and accepts only lines of the second color

---
 mass/core/utilities.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mass/core/utilities.py b/mass/core/utilities.py
index bc2969f..0b7b497 100644
--- a/mass/core/utilities.py
+++ b/mass/core/utilities.py
@@ -179,20 +179,21 @@ def annotate_lines(axis, label_lines, label_lines_color2=[], color1="k", color2=
     color2 -- text color for label_lines_color2
     """
     n = len(label_lines) + len(label_lines_color2)
-    yscale = plt.gca().get_yscale()
+    yscale = axis.get_yscale()
+    ymax = axis.get_ylim()[1]
     for (i, label_line) in enumerate(label_lines):
         energy = mass.STANDARD_FEATURES[label_line]
         if yscale == "linear":
-            axis.annotate(label_line, (energy, (1 + i) * plt.ylim()[1] / float(1.5 * n)),
+            axis.annotate(label_line, (energy, (1 + i) * ymax / float(1.5 * n)),
                           xycoords="data", color=color1)
         elif yscale == "log":
-            axis.annotate(label_line, (energy, np.exp((1 + i) * np.log(plt.ylim()[1]) / float(1.5 * n))),
+            axis.annotate(label_line, (energy, np.exp((1 + i) * np.log(ymax) / float(1.5 * n))),
                           xycoords="data", color=color1)
     for (j, label_line) in enumerate(label_lines_color2):
         energy = mass.STANDARD_FEATURES[label_line]
         if yscale == "linear":
-            axis.annotate(label_line, (energy, (2 + i + j) * plt.ylim()[1] / float(1.5 * n)),
+            axis.annotate(label_line, (energy, (1 + len(label_lines) + j) * ymax / float(1.5 * n)),
                           xycoords="data", color=color2)
         elif yscale == "log":
-            axis.annotate(label_line, (energy, np.exp((2 + i + j) * np.log(plt.ylim()[1]) / float(1.5 * n))),
+            axis.annotate(label_line, (energy, np.exp((1 + len(label_lines) + j) * np.log(ymax) / float(1.5 * n))),
                           xycoords="data", color=color2)
-- 
2.43.0


From 77da872a58375c798e5103015301098cc797a022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:18 +0000
Subject: [PATCH 169/199] fix: hdf5print works in Python 3, and prints empty
 and scalar datasets

---
 bin/hdf5print | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/hdf5print b/bin/hdf5print
index f4fc46b..cb14c50 100755
--- a/bin/hdf5print
+++ b/bin/hdf5print
@@ -17,7 +17,7 @@ import sys
 
 
 def printHDF5(node, depth=0, maxchan=1):
-    if node is None or len(node) == 0:
+    if node is None or (isinstance(node, h5py.Group) and len(node) == 0 and len(node.attrs) == 0):
         print("\t" * depth, "-")
         return
 
@@ -35,7 +35,7 @@ def printHDF5(node, depth=0, maxchan=1):
         print(prefix, name)
 
     # Print its attributes
-    for ak, av in node.attrs.iteritems():
+    for ak, av in node.attrs.items():
         print(f'{prefix_attr}|-{{{ak}={str(av)}}}')
 
     # Print its children
-- 
2.43.0


From 6b5ab660838c62bfb625b78a5a12d7f4a321f865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:16 +0000
Subject: [PATCH 170/199] fix: plotHist puts its legend on the axis given, and
 a single state's name in it whole

---
 mass/off/channels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 253f5ac..53f63df 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -96,7 +96,7 @@ class CorG:
             states = self.stateLabels
         if coAddStates:
             # Passing a sequence as a label is deprecated in Matplotlib 3.9, so make it a string
-            label = ", ".join(states)
+            label = ", ".join(util.iterstates(states))
             x, y = self.hist(binEdges, attr, states=states, cutRecipeName=cutRecipeName)
             axis.plot(x, y, drawstyle="steps-mid", label=label)
         else:
@@ -105,7 +105,7 @@ class CorG:
                 axis.plot(x, y, drawstyle="steps-mid", label=state)
         axis.set_xlabel(attr)
         axis.set_ylabel("counts per %0.1f unit bin" % (binEdges[1] - binEdges[0]))
-        plt.legend(title="states")
+        axis.legend(title="states")
         axis.set_title(self.shortName)
         annotate_lines(axis, labelLines)
         return axis
-- 
2.43.0


From 9b01a846d3d58751fc12be7002d083e7664833ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:16 +0000
Subject: [PATCH 171/199] fix: OFF plots of one quantity against another are
 drawn and labelled on the axis given

---
 mass/off/channels.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 53f63df..779707a 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -466,10 +466,10 @@ class Channel(CorG):  # noqa: PLR0904
         counts, binEdgesA, binEdgesB = np.histogram2d(vA, vB, binEdgesAB)
         binCentersA = 0.5 * (binEdgesA[1:] + binEdgesA[:-1])
         binCentersB = 0.5 * (binEdgesB[1:] + binEdgesB[:-1])
-        plt.contourf(binCentersA, binCentersB, counts.T, norm=norm)
-        plt.xlabel(nameA)
-        plt.ylabel(nameB)
-        plt.title(f"{self.shortName}\ncutRecipeName={cutRecipeName}")
+        axis.contourf(binCentersA, binCentersB, counts.T, norm=norm)
+        axis.set_xlabel(nameA)
+        axis.set_ylabel(nameB)
+        axis.set_title(f"{self.shortName}\ncutRecipeName={cutRecipeName}")
         return axis
 
     def plotAvsB(self, nameA, nameB, axis=None, states=None, includeBad=False, cutRecipeName=None):
@@ -483,10 +483,10 @@ class Channel(CorG):  # noqa: PLR0904
             self._plotAvsB_list(nameA, nameB, axis, states, includeBad, cutRecipeName)
         else:
             self._plotAvsB_single(nameA, nameB, axis, states, includeBad, cutRecipeName)
-        plt.xlabel(nameA)
-        plt.ylabel(nameB)
-        plt.title(f"{self.shortName}\ncutRecipeName={cutRecipeName}")
-        plt.legend(title="states")
+        axis.set_xlabel(nameA)
+        axis.set_ylabel(nameB)
+        axis.set_title(f"{self.shortName}\ncutRecipeName={cutRecipeName}")
+        axis.legend(title="states")
         return axis
 
     def _plotAvsB_list(self, nameA, nameBlist, axis, states, includeBad, cutRecipeName):
@@ -600,10 +600,10 @@ class Channel(CorG):  # noqa: PLR0904
                                         "filtValueDC"], state, cutRecipeName=True)
                 axis.plot(A, B, "x", label=state + " bad")
                 axis.plot(A, C, "x", label=state + " bad DC")
-        plt.xlabel(indicatorName)
-        plt.ylabel(uncorrectedName + ",filtValueDC")
-        plt.title(self.shortName + " drift correct comparison")
-        plt.legend(title="states")
+        axis.set_xlabel(indicatorName)
+        axis.set_ylabel(uncorrectedName + ",filtValueDC")
+        axis.set_title(self.shortName + " drift correct comparison")
+        axis.legend(title="states")
         return axis
 
     def calibrationPlanInit(self, attr):
-- 
2.43.0


From be2c4db777788b2934630bffd6e12f7ae394fb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:16 +0000
Subject: [PATCH 172/199] fix: plotCompareDriftCorrect can include the bad
 pulses

---
 mass/off/channels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 779707a..8a39ae0 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -580,6 +580,7 @@ class Channel(CorG):  # noqa: PLR0904
         self.recipes.add(correctedName, time_drift_correct, [indicatorName, uncorrectedName], overwrite=overwriteRecipe)
 
     def plotCompareDriftCorrect(self, axis=None, states=None, cutRecipeName=None, includeBad=False):
+        cutRecipeName = self._handleDefaultCut(cutRecipeName)
         if axis is None:
             plt.figure()
             axis = plt.gca()
@@ -597,7 +598,7 @@ class Channel(CorG):  # noqa: PLR0904
             axis.plot(A, C, ".", label=state + " DC")
             if includeBad:
                 A, B, C = self.getAttr([indicatorName, uncorrectedName,
-                                        "filtValueDC"], state, cutRecipeName=True)
+                                        "filtValueDC"], state, f"!{cutRecipeName}")
                 axis.plot(A, B, "x", label=state + " bad")
                 axis.plot(A, C, "x", label=state + " bad DC")
         axis.set_xlabel(indicatorName)
-- 
2.43.0


From 4a961a943d1f0ca6e12007b64a437eab44f6fff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:16 +0000
Subject: [PATCH 173/199] fix: OFF line labels are scaled to and put on the
 axis given, and may be all of the second color

---
 mass/off/util.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/mass/off/util.py b/mass/off/util.py
index 0386be7..11d27eb 100644
--- a/mass/off/util.py
+++ b/mass/off/util.py
@@ -6,7 +6,6 @@ import sys
 
 # pkg imports
 import progress.bar
-import pylab as plt
 import numpy as np
 
 # user imports
@@ -286,8 +285,8 @@ def labelPeak(axis, name, energy, line=None, deltaELocalMaximum=5, color=None):
         color = line.get_color()
     ydataLocalMaximum = np.amax([np.interp(energy + de, line.get_xdata(), line.get_ydata(),
                                            right=0, left=0) for de in np.linspace(-1, 1, 10) * deltaELocalMaximum])
-    plt.annotate(name, (energy, ydataLocalMaximum), (0, 10), textcoords='offset points',
-                 rotation=90, verticalalignment='top', horizontalalignment="center", color=color)
+    axis.annotate(name, (energy, ydataLocalMaximum), (0, 10), textcoords='offset points',
+                  rotation=90, verticalalignment='top', horizontalalignment="center", color=color)
 
 
 def labelPeaks(axis, names, energies, line=None, deltaELocalMaximum=5, color=None):
@@ -303,23 +302,20 @@ def annotate_lines(axis, labelLines, labelLines_color2=[], color1="k", color2="r
     color2 -- text color for labelLines_color2
     """
     n = len(labelLines) + len(labelLines_color2)
-    yscale = plt.gca().get_yscale()
+    yscale = axis.get_yscale()
+    ymax = axis.get_ylim()[1]
     for (i, labelLine) in enumerate(labelLines):
         energy = mass.STANDARD_FEATURES[labelLine]
         if yscale == "linear":
-            axis.annotate(labelLine, (energy, (1 + i) * plt.ylim()
-                                      [1] / float(1.5 * n)), xycoords="data", color=color1)
+            axis.annotate(labelLine, (energy, (1 + i) * ymax / float(1.5 * n)), xycoords="data", color=color1)
         elif yscale == "log":
-            axis.annotate(labelLine, (energy, np.exp(
-                (1 + i) * np.log(plt.ylim()[1]) / float(1.5 * n))), xycoords="data", color=color1)
+            axis.annotate(labelLine, (energy, np.exp((1 + i) * np.log(ymax) / float(1.5 * n))), xycoords="data", color=color1)
     for (j, labelLine) in enumerate(labelLines_color2):
         energy = mass.STANDARD_FEATURES[labelLine]
         if yscale == "linear":
-            axis.annotate(labelLine, (energy, (2 + i + j) * plt.ylim()
-                                      [1] / float(1.5 * n)), xycoords="data", color=color2)
+            axis.annotate(labelLine, (energy, (1 + len(labelLines) + j) * ymax / float(1.5 * n)), xycoords="data", color=color2)
         elif yscale == "log":
-            axis.annotate(labelLine, (energy, np.exp(
-                (2 + i + j) * np.log(plt.ylim()[1]) / float(1.5 * n))), xycoords="data", color=color2)
+            axis.annotate(labelLine, (energy, np.exp((1 + len(labelLines) + j) * np.log(ymax) / float(1.5 * n))), xycoords="data", color=color2)
 
 
 class SilenceBar(progress.bar.Bar):
-- 
2.43.0


From 4ac8393e547519d498556cbd07bbe493b7aba97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:29 +0000
Subject: [PATCH 174/199] fix: count only existing channels as good, and refuse
 to mark unknown channels bad

---
 mass/core/channel_group.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 63f4fcf..fb2c8b7 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -464,6 +464,9 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
                                     else {x} for x in args if not isstr(x)])
         comment = reduce(lambda x, y: y, [x for x in args if isstr(x)], '')
 
+        for channum in added_to_list:
+            if f"chan{channum}" not in self.hdf5_file:
+                raise KeyError(f"Cannot set channel {channum} bad, because it does not exist")
         for channum in added_to_list:
             new_comment = self._bad_channums.get(channum, []) + [comment]
             self._bad_channums[channum] = new_comment
@@ -480,7 +483,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             self.set_chan_good(channum)
 
     def n_good_channels(self):
-        return self.n_channels - len(self._bad_channums.keys())
+        return self.num_good_channels
 
     @property
     def timestamp_offset(self):
-- 
2.43.0


From e1ec4dd4a951ddb66a93f2a6f89c3b454a715b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:11 +0000
Subject: [PATCH 175/199] fix: states sharing an alias are one label, so are
 not counted twice or written twice

---
 mass/off/experiment_state.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/off/experiment_state.py b/mass/off/experiment_state.py
index bd1ca94..242ac51 100644
--- a/mass/off/experiment_state.py
+++ b/mass/off/experiment_state.py
@@ -185,4 +185,5 @@ class ExperimentStateFile:
 
     @property
     def labels(self) -> list[str]:
-        return [self.labelAliasesDict.get(label, label) for label in self.unaliasedLabels]
+        # Several states can have the same alias, which is then one state.
+        return list(dict.fromkeys(self.labelAliasesDict.get(label, label) for label in self.unaliasedLabels))
-- 
2.43.0


From 7ab02165eae4e8d74e07740357bd4c4376f2e4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:18 +0000
Subject: [PATCH 176/199] fix: plot calibration curves as log(gain) also when
 gain is below 1, with error bars of the logarithm

---
 mass/calibration/energy_calibration.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 8259e89..1cfe077 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -689,7 +689,7 @@ class EnergyCalibration:  # noqa: PLR0904
             if self._use_approximation:
                 dyplot = self.ph2uncertainty(phplot) / eplot
             y = np.log(gains)
-            ylabel = "Log Gain: log(eV/PH)"
+            ylabel = "Log Gain: log(PH/eV)"
             axis.set_title("Energy calibration curve, log gain")
         elif plottype == "loglog":
             yplot = np.log(eplot)
@@ -715,7 +715,9 @@ class EnergyCalibration:  # noqa: PLR0904
             axis.plot(xplot, yplot - dyplot, color=color, alpha=0.35)
 
         # Plot and label cal points
-        dy = ((self._de / self._energies)**2 + (self._dph / self._ph)**2)**0.5 * y
+        dy = ((self._de / self._energies)**2 + (self._dph / self._ph)**2)**0.5
+        if plottype not in {"loggain", "loglog"}:  # For y a logarithm, the relative error is the error on y
+            dy = dy * np.abs(y)
         axis.errorbar(x, y - slope * x, yerr=dy, xerr=xerr, fmt='o',
                       mec='black', mfc=markercolor, capsize=0)
         axis.grid(True)
-- 
2.43.0


From fb0c96eb1e042896e465551aebc46bf3c3545d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:18 +0000
Subject: [PATCH 177/199] fix: auto-calibration diagnostic plots work for lines
 given as energies

---
 mass/calibration/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/algorithms.py b/mass/calibration/algorithms.py
index ad49f7a..92a3feb 100644
--- a/mass/calibration/algorithms.py
+++ b/mass/calibration/algorithms.py
@@ -354,7 +354,7 @@ class EnergyCalibrationAutocal:
                     lw=1, fc="#4c4ce6", ec="#1a1aff", alpha=0.8)
 
             x = np.linspace(result.energies[0], result.energies[-1], 201)
-            if "Gaussian" in result.model.name:
+            if not isstr(el):
                 ax.text(0.05, 0.97, str(el)
                         + ' (eV)\n' + f"Resolution: {eres:.1f} (eV)",
                         transform=ax.transAxes, ha='left', va='top')
-- 
2.43.0


From 3761df580ad757a0b143c0d05bdc35047d938fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:18 +0000
Subject: [PATCH 178/199] fix: line fit plots are titled on the axis given

---
 mass/calibration/line_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/line_models.py b/mass/calibration/line_models.py
index 5d66c1d..ec5d8fa 100644
--- a/mass/calibration/line_models.py
+++ b/mass/calibration/line_models.py
@@ -352,7 +352,7 @@ class LineModelResult(lmfit.model.ModelResult):
         ax = lmfit.model.ModelResult.plot_fit(self, ax=ax,
                                               xlabel=xlabel, ylabel=ylabel)
         if title is not None:
-            plt.title(title)
+            ax.set_title(title)
         ax.text(0.05, 0.95, self._compact_fit_report(), transform=ax.transAxes,
                 verticalalignment="top", bbox=dict(facecolor='w', alpha=0.5), family="monospace")
         # ax.legend(["data", self._compact_fit_report()],loc='best', frameon=True, framealpha = 0.5)
-- 
2.43.0


From 533cc66e3ca01384b974e16d326bba2074a3a8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:13 +0000
Subject: [PATCH 179/199] fix: refuse calibration points at a pulse height or
 energy already taken, which left no curve

---
 mass/calibration/energy_calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 1cfe077..3c7fede 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -387,7 +387,8 @@ class EnergyCalibration:  # noqa: PLR0904
         # Validate: ph and energies must be monotone increasing
         order_ph = new_ph.argsort()
         order_en = new_energies.argsort()
-        if not np.all(order_ph == order_en):
+        increasing = all(np.all(np.diff(v[order_ph]) > 0) for v in (new_ph, new_energies))
+        if not (increasing and np.all(order_ph == order_en)):
             a = f"PH:     {new_ph[order_ph]}"
             b = f"Energy: {new_energies[order_ph]}"
             raise Exception(f"Calibration points are not monotone:\n{a}\n{b}")
-- 
2.43.0


From 65aba073429b844e7cb067006ad9bfc504e25e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:13 +0000
Subject: [PATCH 180/199] fix: no curve uncertainty is made up for, and plots
 work with, fewer than 3 calibration points

---
 mass/calibration/energy_calibration.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 3c7fede..fba5cef 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -216,6 +216,8 @@ class EnergyCalibration:  # noqa: PLR0904
         if not self._use_approximation:
             raise ValueError(
                 "Cannot estimate uncertainty. First use cal.set_use_approximation(True)")
+        if self.npts < 3:  # the curve is exact
+            raise ValueError("Cannot estimate uncertainty with fewer than 3 calibration points.")
         if self._model_is_stale:
             self._update_converters()
         return self._uncertainty(ph)
@@ -640,6 +642,7 @@ class EnergyCalibration:  # noqa: PLR0904
         eplot = self(phplot)
         gplot = phplot / eplot
         dyplot = None
+        has_uncertainty = self._use_approximation and self.npts >= 3
         gains = self._ph / self._energies
         slope = 0.0
         xplot = phplot
@@ -662,7 +665,7 @@ class EnergyCalibration:  # noqa: PLR0904
 
         if plottype == "linear":
             yplot = self(phplot) / (phplot**ph_rescale_power)
-            if self._use_approximation:
+            if has_uncertainty:
                 dyplot = self.ph2uncertainty(phplot) / (phplot**ph_rescale_power)
             y = self._energies / (self._ph**ph_rescale_power)
             if ph_rescale_power == 0.0:
@@ -673,21 +676,21 @@ class EnergyCalibration:  # noqa: PLR0904
                 axis.set_title(f"Energy calibration curve, scaled by {ph_rescale_power:.4f} power of PH")
         elif plottype == "gain":
             yplot = gplot
-            if self._use_approximation:
+            if has_uncertainty:
                 dyplot = self.ph2uncertainty(phplot) / eplot * gplot
             y = gains
             ylabel = "Gain (PH/eV)"
             axis.set_title("Energy calibration curve, gain")
         elif plottype == "invgain":
             yplot = 1.0 / gplot
-            if self._use_approximation:
+            if has_uncertainty:
                 dyplot = self.ph2uncertainty(phplot) / phplot
             y = 1.0 / gains
             ylabel = "Inverse Gain (eV/PH)"
             axis.set_title("Energy calibration curve, inverse gain")
         elif plottype == "loggain":
             yplot = np.log(gplot)
-            if self._use_approximation:
+            if has_uncertainty:
                 dyplot = self.ph2uncertainty(phplot) / eplot
             y = np.log(gains)
             ylabel = "Log Gain: log(PH/eV)"
@@ -695,7 +698,7 @@ class EnergyCalibration:  # noqa: PLR0904
         elif plottype == "loglog":
             yplot = np.log(eplot)
             xplot = np.log(phplot)
-            if self._use_approximation:
+            if has_uncertainty:
                 dyplot = self.ph2uncertainty(phplot) / eplot
             y = np.log(self._energies)
             x = np.log(self._ph)
-- 
2.43.0


From e1a9781aa08c980ab77700a7adb16040aa03357b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:50 +0000
Subject: [PATCH 181/199] fix: plot_like_reference works for quick
 monochromatic lines

---
 mass/calibration/fluorescence_lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/fluorescence_lines.py b/mass/calibration/fluorescence_lines.py
index 7d1fe04..69e7695 100644
--- a/mass/calibration/fluorescence_lines.py
+++ b/mass/calibration/fluorescence_lines.py
@@ -217,7 +217,7 @@ class SpectralLine:
             intrinsic_sigma = 1e-4
         lorentzian_fwhm = np.array([lorentzian_fwhm])
         linetype = "quick_line"
-        reference_plot_instrument_gaussian_fwhm = "unkown: quick_line"
+        reference_plot_instrument_gaussian_fwhm = None
         reference_short = "unkown: quick_line"
         reference_amplitude = "unkown: quick_line"
         reference_amplitude_type = "unkown: quick_line"
-- 
2.43.0


From 1e613f4a405b2466791669b7702534f469279b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:24 +0000
Subject: [PATCH 182/199] fix: a power spectrum is drawn on log scales of the
 axis given, and is named for what it is

---
 mass/mathstat/power_spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index e25bea4..f79559c 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -161,11 +161,11 @@ class PowerSpectrum:
         freq = self.frequencies()[1:]
         if sqrt_psd:
             axis.plot(freq, np.sqrt(psd), **plotkwarg)
-            axis.set_ylabel(f"Power Spectral Density ({unit_label}$/\\sqrt{{Hz}}$)")
+            axis.set_ylabel(f"Amplitude Spectral Density ({unit_label}$/\\sqrt{{Hz}}$)")
         else:
             axis.plot(freq, psd, **plotkwarg)
-            axis.set_ylabel(f"Amplitude Spectral Density ({unit_label}$^2$ Hz$^{{-1}}$)")
-        plt.loglog()
+            axis.set_ylabel(f"Power Spectral Density ({unit_label}$^2$ Hz$^{{-1}}$)")
+        axis.loglog()
         axis.grid()
         axis.set_xlabel("Frequency (Hz)")
 
-- 
2.43.0


From 585571f47f7057d78333c57c4300a39e1944afe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:30 +0000
Subject: [PATCH 183/199] fix: noise spectra use only the records asked for by
 use_records

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index bf59ec5..1dcee8e 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -192,7 +192,7 @@ class NoiseRecords:
         elif callable(window):
             window = window(spectrum.m2)
 
-        data = self.datafile.alldata
+        data = self.datafile.alldata[:self.nPulses]
         if self.continuous and seg_length != self.nSamples:
             data = data.ravel()
             n = len(data) - len(data) % seg_length
-- 
2.43.0


From 41bb80406ce89057b0cbe0663b5600967282bd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:30 +0000
Subject: [PATCH 184/199] fix: noise plots compute the noise of records that
 have no HDF5 file

---
 mass/core/channel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 1dcee8e..a40abc4 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -263,7 +263,7 @@ class NoiseRecords:
             <scale>    Scale all raw units by this number to convert counts to physical
             <sqrt_psd> Whether to take the sqrt(PSD) for plotting.  Default is no sqrt
         """
-        if all(self.noise_psd[:] == 0):
+        if self.noise_psd is None or all(self.noise_psd[:] == 0):
             self.compute_power_spectrum(plot=False)
         if axis is None:
             plt.clf()
@@ -427,7 +427,7 @@ class NoiseRecords:
 
     def plot_autocorrelation(self, axis=None, color='blue', label=None):
         """Plot the autocorrelation function."""
-        if all(self.autocorrelation[:] == 0):
+        if self.autocorrelation is None or all(self.autocorrelation[:] == 0):
             LOG.info("Autocorrelation must be computed before it can be plotted")
             self.compute_autocorrelation(plot=False)
         if axis is None:
-- 
2.43.0


From fc5b7ac82fab061b0fadf879c28efbedce5847a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:18 +0000
Subject: [PATCH 185/199] fix: plot_traces accepts a single record number of
 any integer type

---
 mass/core/channel.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index a40abc4..6759b47 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2017,9 +2017,7 @@ class MicrocalDataSet:  # noqa: PLR0904
             <fcut>  If not none, apply a lowpass filter with this cutoff frequency prior to plotting
         """
 
-        if isinstance(pulsenums, int):
-            pulsenums = (pulsenums,)
-        pulsenums = np.asarray(pulsenums)
+        pulsenums = np.atleast_1d(pulsenums)
         if pulse_summary:
             try:
                 if len(self.p_pretrig_mean) == 0:
-- 
2.43.0


From 97b5fd02b760b529f75e375e7456e72c4d0db49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:18 +0000
Subject: [PATCH 186/199] fix: count_rate takes a scalar of any numeric type as
 the seconds per bin

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 6759b47..4c99fd7 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2156,7 +2156,7 @@ class MicrocalDataSet:  # noqa: PLR0904
         g = self.cuts.good()
         if not goodonly:
             g[:] = True
-        if isinstance(bin_s, (int, float)):
+        if np.ndim(bin_s) == 0:
             bin_edge = np.arange(self.p_timestamp[g][0], self.p_timestamp[g][-1], bin_s)
         else:
             bin_edge = bin_s
-- 
2.43.0


From 4f4dfdcf3dcd80cb4243c6e92af02269557c29bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:18 +0000
Subject: [PATCH 187/199] fix: group plot_summaries accepts all the quantity
 names it documents

---
 mass/core/channel_group.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index fb2c8b7..7464790 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -764,11 +764,11 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         )
 
         quant_names = [p[1].lower().replace(" ", "") for p in plottables]
-        if quantity in range(len(quant_names)):
-            plottable = plottables[quantity]
-        else:
-            quantity = quant_names.index(quantity.lower().replace(" ", ""))
-            plottable = plottables[quantity]
+        other_names = {"maxptderiv": 5, "risetime": 6, "peaktime": 7}
+        if quantity not in range(len(quant_names)):
+            quantity = quantity.lower().replace(" ", "")
+            quantity = other_names[quantity] if quantity in other_names else quant_names.index(quantity)
+        plottable = plottables[quantity]
 
         MAX_TO_PLOT = 16
         if channel_numbers is None:
-- 
2.43.0


From 683411b20ad5507c29456aa2cab9343c514a8c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:18 +0000
Subject: [PATCH 188/199] fix: group plot_summaries on log scale works for
 channels with no values to show

---
 mass/core/channel_group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 7464790..d570eef 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -863,10 +863,10 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             else:
                 contents, _bins, _patches = plt.hist(vect[in_limit], 200, log=log,
                                                      histtype='stepfilled', fc=color, alpha=0.5)
+                if log:
+                    plt.ylim(ymin=contents.min())
             if i == ny_plots - 1:
                 plt.xlabel(label)
-            if log:
-                plt.ylim(ymin=contents.min())
             plt.tight_layout()
 
     def make_masks(self, pulse_avg_range=None,
-- 
2.43.0


From ea3eea76b64d77641a65a9f3e036cbbde8fc7062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:18 +0000
Subject: [PATCH 189/199] fix: pulse_model_to_hdf5 heeds noise_weight_basis and
 _rethrow when given an open file

---
 mass/core/channel_group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index d570eef..ebc3f22 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -609,7 +609,8 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             LOG.info("writing pulse_model to %s", hdf5_filename)
             self._pulse_model_to_hdf5(
                 hdf5_file, n_basis, maximum_n_pulses=maximum_n_pulses,
-                extra_n_basis_5lag=extra_n_basis_5lag, f_3db_5lag=f_3db_5lag, category=category)
+                extra_n_basis_5lag=extra_n_basis_5lag, noise_weight_basis=noise_weight_basis,
+                f_3db_5lag=f_3db_5lag, category=category, _rethrow=_rethrow)
         return hdf5_filename
 
     @property
-- 
2.43.0


From 3bea0a7efae6c5ac096c76fcb9334e4fd35091e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:42 +0000
Subject: [PATCH 190/199] fix: fit plots work when a fitted value or its
 uncertainty is zero

---
 mass/calibration/line_models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mass/calibration/line_models.py b/mass/calibration/line_models.py
index ec5d8fa..4ce296d 100644
--- a/mass/calibration/line_models.py
+++ b/mass/calibration/line_models.py
@@ -334,7 +334,11 @@ class LineModelResult(lmfit.model.ModelResult):
                     sig_figs = 2
                     s += f"{sn.get(k, k):7} {v.value:.{sig_figs}g}±None\n"
                 else:
-                    sig_figs = int(np.ceil(np.log10(np.abs(v.value / v.stderr))) + 1)
+                    sig_figs = 6
+                    if v.value == 0:
+                        sig_figs = 1
+                    elif v.stderr > 0:
+                        sig_figs = int(np.ceil(np.log10(np.abs(v.value / v.stderr))) + 1)
                     sig_figs = max(1, sig_figs)
                     s += f"{sn.get(k, k):7} {v.value:.{sig_figs}g}±{v.stderr:.2g}\n"
             else:
-- 
2.43.0


From db2b114222242a408e233b15690102d585b56b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:27 +0000
Subject: [PATCH 191/199] fix: count_rate is right for bins of unequal width

---
 mass/core/channel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 4c99fd7..6d1597f 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2161,8 +2161,9 @@ class MicrocalDataSet:  # noqa: PLR0904
         else:
             bin_edge = bin_s
         counts, bin_edge = np.histogram(self.p_timestamp[g], bin_edge)
-        bin_centers = bin_edge[:-1] + 0.5 * (bin_edge[1] - bin_edge[0])
-        rate = counts / float(bin_edge[1] - bin_edge[0])
+        bin_width = np.diff(bin_edge)  # a list of edges need not be equally spaced
+        bin_centers = bin_edge[:-1] + 0.5 * bin_width
+        rate = counts / bin_width
 
         return bin_centers, rate
 
-- 
2.43.0


From c78157eb53ae4147e17557806dc932c6c7ea0024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:27 +0000
Subject: [PATCH 192/199] fix: smart_cuts(forceNew=True) forgets the flags of
 the earlier computation

---
 mass/core/channel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 6d1597f..2363dd9 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2316,6 +2316,7 @@ class MicrocalDataSet:  # noqa: PLR0904
             mdata = mdata.transpose()
             flag = robust.mahalanobis(mdata) > threshold**2
 
+            self.cuts.clear_cut("smart_cuts")  # forget the flags of any earlier computation
             self.cuts.cut("smart_cuts", flag)
             LOG.info("channel %g ran smart cuts, %g of %g pulses passed",
                      self.channum, self.cuts.good("smart_cuts").sum(), self.nPulses)
-- 
2.43.0


From 290eb811b693da7b8c6c8bd907208068c7fd7998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:27 +0000
Subject: [PATCH 193/199] fix: plot_efficiency labels its energies with the
 unit they have

---
 mass/materials/efficiency_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/materials/efficiency_models.py b/mass/materials/efficiency_models.py
index 4bcccdf..e75d900 100644
--- a/mass/materials/efficiency_models.py
+++ b/mass/materials/efficiency_models.py
@@ -61,7 +61,7 @@ class FilterStack:
             ax = fig.add_subplot(111)
 
         ax.plot(xray_energies_eV, efficiency * 100.0, label="total", lw=2)
-        ax.set_xlabel('Energy (keV)')
+        ax.set_xlabel('Energy (eV)')
         ax.set_ylabel('Efficiency (%)')
         ax.set_title(self.name)
         ax.set_title(f'{self.name} Efficiency')
-- 
2.43.0


From 28158e8e80b56a29a926998c73812ff19c84746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:35 +0000
Subject: [PATCH 194/199] fix: phase_correct stores the corrected phase, not
 the phase treated as a pulse height

---
 mass/core/channel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 2363dd9..562788c 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1862,7 +1862,9 @@ class MicrocalDataSet:  # noqa: PLR0904
                                                           ph_peaks=ph_peaks, method2017=method2017, kernel_width=kernel_width,
                                                           indicatorName="p_filt_phase", uncorrectedName=attr)
 
-        self.p_filt_phase_corr[:] = self.phaseCorrector.phase_uniformifier(self.p_filt_phase[:])
+        # The phase_uniformifier is the typical phase as a function of pulse height
+        typical_phase = self.phaseCorrector.phase_uniformifier(getattr(self, attr)[:])
+        self.p_filt_phase_corr[:] = self.p_filt_phase[:] - typical_phase
         self.p_filt_value_phc[:] = self.phaseCorrector(self.p_filt_phase[:], getattr(self, attr)[:])
 
         if save_to_hdf5:
-- 
2.43.0


From 8898a82eb4f2ee86fd79f1be8db059a50d4d90ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:22 +0000
Subject: [PATCH 195/199] fix: write_asd_pickle can sort and write the levels
 it has read

---
 mass/calibration/import_asd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/calibration/import_asd.py b/mass/calibration/import_asd.py
index a12d981..720b2c3 100644
--- a/mass/calibration/import_asd.py
+++ b/mass/calibration/import_asd.py
@@ -40,8 +40,8 @@ def write_asd_pickle(inputFilename, outputFilename):
 
     # Sort levels within an element/charge state by energy
     outputDict = {}
-    for iElement, element in energyLevelsDict.values():
-        for iCharge, chargestate in element.values():
+    for iElement, element in energyLevelsDict.items():
+        for iCharge, chargestate in element.items():
             energyOrder = np.argsort(np.array(list(chargestate.values()))[:, 0])
             orderedKeys = np.array(list(chargestate.keys()))[energyOrder]
             orderedValues = np.array(list(chargestate.values()))[energyOrder]
-- 
2.43.0


From 3bddd4af356b2e22522a29f025843058b9dd3914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:22 +0000
Subject: [PATCH 196/199] fix: write_asd_pickle reads INSERT statements of a
 single row

---
 mass/calibration/import_asd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/import_asd.py b/mass/calibration/import_asd.py
index 720b2c3..0d69884 100644
--- a/mass/calibration/import_asd.py
+++ b/mass/calibration/import_asd.py
@@ -57,7 +57,7 @@ def write_asd_pickle(inputFilename, outputFilename):
 
 
 def parseLine(energyLevelsDict, fieldNamesDict, formattedLine):
-    lineAsArray = np.array(ast.literal_eval(formattedLine))
+    lineAsArray = np.array(ast.literal_eval(f"[{formattedLine}]"))  # brackets, because there may be only one row
     for iEntry in lineAsArray:
         element = iEntry[fieldNamesDict['ASD_Levels'].index('element')]
         spectr_charge = int(iEntry[fieldNamesDict['ASD_Levels'].index('spectr_charge')])
-- 
2.43.0


From 574546427dbf419b8bee725ffa67c46d36a0283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:22 +0000
Subject: [PATCH 197/199] fix: HCI models can have a linear background

add_bg_model used line_models.LinearBackgroundModel, which did not exist.
---
 mass/calibration/line_models.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/mass/calibration/line_models.py b/mass/calibration/line_models.py
index 4ce296d..674391a 100644
--- a/mass/calibration/line_models.py
+++ b/mass/calibration/line_models.py
@@ -321,6 +321,24 @@ class GenericLineModel(MLEModel):
         return lmfit.models.update_param_vals(pars, self.prefix, **kwargs)
 
 
+class LinearBackgroundModel(MLEModel):
+    """A background that is linear in the bin number, to be added to one or more line models.
+
+    It has the same meaning as the linear background of a `GenericLineModel`: `background` is the counts
+    per bin in the first bin, and `bg_slope` the change from each bin to the next.
+    """
+
+    def __init__(self, independent_vars=['bin_centers'], prefix='', nan_policy='raise', **kwargs):
+        def modelfunc(bin_centers, background=0, bg_slope=0):
+            return _scale_add_bg(np.zeros(len(bin_centers), dtype=float), 0, background, bg_slope)
+
+        kwargs.update({'prefix': prefix, 'nan_policy': nan_policy, 'independent_vars': independent_vars,
+                       'param_names': ["background", "bg_slope"]})
+        super().__init__(modelfunc, **kwargs)
+        self.set_param_hint('background', value=1, min=0)
+        self.set_param_hint('bg_slope', value=0, vary=False)
+
+
 class LineModelResult(lmfit.model.ModelResult):
     """like lmfit.model.Model result, but with some convenient plotting functions for line spectra fits"""
 
-- 
2.43.0


From 8e7408e771500a7afc73d887202a5fa5b6de1ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:22 +0000
Subject: [PATCH 198/199] fix: make_projectors ignores as many presamples as
 --n_ignore_presamples says

The option was parsed and not used. Its default, 3, is also that of summarize_data.
---
 mass/core/projectors_script.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mass/core/projectors_script.py b/mass/core/projectors_script.py
index 417c173..b137add 100644
--- a/mass/core/projectors_script.py
+++ b/mass/core/projectors_script.py
@@ -12,13 +12,13 @@ LOG.setLevel(logging.DEBUG)
 
 def make_projectors(pulse_files, noise_files, h5, n_sigma_pt_rms, n_sigma_max_deriv,  # noqa: PLR0917
                     n_basis, maximum_n_pulses, mass_hdf5_path, mass_hdf5_noise_path, invert_data, optimize_dp_dt,
-                    extra_n_basis_5lag, noise_weight_basis, f_3db_ats=None, f_3db_5lag=None):
+                    extra_n_basis_5lag, noise_weight_basis, f_3db_ats=None, f_3db_5lag=None, n_ignore_presamples=3):
     data = mass.TESGroup(pulse_files, noise_files, overwrite_hdf5_file=True,
                          hdf5_filename=mass_hdf5_path,
                          hdf5_noisefilename=mass_hdf5_noise_path)
     for ds in data:
         ds.invert_data = invert_data
-    data.summarize_data()
+    data.summarize_data(pretrigger_ignore_microsec=n_ignore_presamples * data.timebase * 1e6)
     data.auto_cuts(nsigma_pt_rms=n_sigma_pt_rms, nsigma_max_deriv=n_sigma_max_deriv)
     data.compute_noise()
     data.compute_ats_filter(shift1=False, optimize_dp_dt=optimize_dp_dt, f_3db=f_3db_ats)
@@ -119,7 +119,8 @@ def main(args=None):
                                     mass_hdf5_noise_path=args.mass_hdf5_noise_path,
                                     invert_data=args.invert_data, optimize_dp_dt=not args.dont_optimize_dp_dt,
                                     extra_n_basis_5lag=args.extra_n_basis_5lag,
-                                    f_3db_ats=args.f_3db_ats, f_3db_5lag=args.f_3db_5lag, noise_weight_basis=True)
+                                    f_3db_ats=args.f_3db_ats, f_3db_5lag=args.f_3db_5lag, noise_weight_basis=True,
+                                    n_ignore_presamples=args.n_ignore_presamples)
     if not args.silent:
         if n_good == 0:
             print("all channels bad, could be because you need -i for inverted pulses")
-- 
2.43.0


From 8a3c0d035ea26130d3e93f6dc9c3031652b1231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:23 +0000
Subject: [PATCH 199/199] fix: PulseModel labels the first 5-lag component as
 such

It was taken for one of the SVD components, and the others' numbers depended on the size of the basis.
---
 mass/core/pulse_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/core/pulse_model.py b/mass/core/pulse_model.py
index 7ba8866..f0a6b0c 100644
--- a/mass/core/pulse_model.py
+++ b/mass/core/pulse_model.py
@@ -138,8 +138,9 @@ class PulseModel:
     def labels(self):
         labels = ["const", "deriv", "pulse"]
         for i in range(self.n_basis - 3):
-            if i > self.n_basis - 3 - self.extra_n_basis_5lag:
-                labels += [f"5lag{i + 2 - self.extra_n_basis_5lag}"]
+            i_5lag = i - (self.n_basis - 3 - self.extra_n_basis_5lag)
+            if i_5lag >= 0:
+                labels += [f"5lag{i_5lag - 2}"]
             else:
                 labels += [f"svd{i}"]
         return labels
-- 
2.43.0

