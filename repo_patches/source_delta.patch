From de53b35fe8cbd87a121f52f3499073f5d7dd5a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 01/45] fix: read a target file back under the name it was
 written with

write_targets numbered frame 0 as 123456789 and expanded '#' and unnumbered
bases, read_targets did neither, so such a target list could not be read back.
---
 openptv_python/tracking_frame_buf.py | 37 +++++++++++++++-------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 8ea507c..2bcad84 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -162,6 +162,24 @@ def sort_target_y(targets: List[Target]) -> List[Target]:
 #         return len(self)
 
 
+def targets_file_name(file_base: str, frame_num: int) -> str:
+    """Return the name of the target file of a frame.
+
+    The frame number goes where the file base has a printf-style field or an
+    old-style "#", and is appended to a base that has neither. An unnumbered
+    base with a frame number of 0 is used as it is.
+    """
+    # fix old-type names, that are like cam1.# or just cam1.
+    if "#" in file_base:
+        file_base = file_base.replace("#", "%05d")
+    if "%" not in file_base:
+        if frame_num <= 0:
+            return f"{file_base}_targets"
+        file_base = file_base + "%05d"
+
+    return file_base % frame_num + "_targets"
+
+
 def read_targets(file_base: str, frame_num: int) -> List[Target]:
     """Read targets from a file."""
     buffer = []
@@ -169,13 +187,7 @@ def read_targets(file_base: str, frame_num: int) -> List[Target]:
     # # if file_base has an extension, remove it
     # file_base = file_base.split(".")[0]
 
-    if frame_num > 0:
-        # filename = f"{file_base}{frame_num:04d}_targets"
-        fname = file_base % frame_num + "_targets"
-    else:
-        fname = f"{file_base}_targets"
-
-    filename = Path(fname)
+    filename = Path(targets_file_name(file_base, frame_num))
     print(f" filename: {filename}")
 
     try:
@@ -215,16 +227,7 @@ def write_targets(
     """Write targets to a file."""
     success = False
 
-    # fix old-type names, that are like cam1.# or just cam1.
-    if "#" in file_base:
-        file_base = file_base.replace("#", "%05d")
-    if "%" not in file_base:
-        file_base = file_base + "%05d"
-
-    if frame_num == 0:
-        frame_num = 123456789
-
-    file_name = file_base % frame_num + "_targets"
+    file_name = targets_file_name(file_base, frame_num)
 
     try:
         # Convert targets to a 2D numpy array
-- 
2.43.0


From 910da7b4913af75d552cf5757aa4d17b260ee41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 02/45] fix: write_targets writes exactly num_targets rows,
 also when that is none

An empty list raised ValueError in savetxt, and a longer buffer (as a fresh
Frame holds) was written out whole under a header with a smaller count.
---
 openptv_python/tracking_frame_buf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 2bcad84..8a1b62a 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -232,8 +232,11 @@ def write_targets(
     try:
         # Convert targets to a 2D numpy array
         target_arr = np.array(
-            [(t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr) for t in targets]
-        )
+            [
+                (t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr)
+                for t in targets[:num_targets]
+            ]
+        ).reshape(-1, 8)
         # Save the target array to file using savetxt
         np.savetxt(
             file_name,
-- 
2.43.0


From 81c5597bff58a23de70aea78b138a0e4f9745cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 03/45] fix: write_path_frame works without a prio file

The prio file base is optional, but "" ended in open(None).
---
 openptv_python/tracking_frame_buf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 8a1b62a..8fff1e8 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -852,8 +852,8 @@ def write_path_frame(
         linkage_file = open(linkage_fname, "w", encoding="utf8")
         linkage_file.write(f"{num_parts}\n")
 
-        if prio_file_base is not None:
-            prio_file = open(prio_fname, "w", encoding="utf8")  # type: ignore
+        if prio_fname is not None:
+            prio_file = open(prio_fname, "w", encoding="utf8")
             prio_file.write(f"{num_parts}\n")
 
         for pix in range(num_parts):
@@ -870,7 +870,7 @@ def write_path_frame(
                 f"{cor_buf[pix].p[2]} {cor_buf[pix].p[3]}\n"
             )
 
-            if prio_file_base is not None:
+            if prio_fname is not None:
                 prio_file.write(
                     f"{path_buf[pix].prev_frame} {path_buf[pix].next_frame} "
                     f"{path_buf[pix].x[0]:.3f} {path_buf[pix].x[1]:.3f} "
@@ -879,7 +879,7 @@ def write_path_frame(
 
         corres_file.close()
         linkage_file.close()
-        if prio_file_base is not None:
+        if prio_fname is not None:
             prio_file.close()
 
         success = True
-- 
2.43.0


From 671b2d8cb251f896d7ddaa8ae5618a73fc50c576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 04/45] fix: a missing rt_is, ptv_is or added file is a failure
 to read the frame

read_path_frame returned empty buffers for it, so Frame.read reported success
with no particles and tracking went on over a frame that was never read.
---
 openptv_python/tracking_frame_buf.py | 29 ++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 8fff1e8..b09a6ef 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -347,21 +347,21 @@ class Frame:
         frame_num: int,
     ) -> bool:
         """Read a frame from the disk."""
-        cor_buf, path_buf = read_path_frame(
-            # self.correspond, self.path_info = read_path_frame(
-            corres_file_base,
-            linkage_file_base,
-            prio_file_base,
-            frame_num,
-        )
+        try:
+            cor_buf, path_buf = read_path_frame(
+                # self.correspond, self.path_info = read_path_frame(
+                corres_file_base,
+                linkage_file_base,
+                prio_file_base,
+                frame_num,
+            )
+        except IOError:
+            return False
 
         self.correspond = cor_buf
         self.path_info = path_buf
         self.num_parts = len(self.correspond)
 
-        if self.num_parts == -1:
-            return False
-
         for cam in range(self.num_cams):
             self.targets[cam] = read_targets(target_file_base[cam], frame_num)
             self.num_targets[cam] = len(self.targets[cam])
@@ -719,7 +719,8 @@ def read_path_frame(
         * between the name and the frame number.
         *
         * Returns:
-        * The number of points read for this frame. -1 on failure.
+        * The buffers of the points read for this frame. Raises IOError if a
+        * file can't be read.
     */
 
     """
@@ -730,7 +731,7 @@ def read_path_frame(
         filein = open(fname, "r", encoding="utf-8")
     except IOError:
         print(f"Can't open ascii file: {fname}")
-        return np.recarray(0, dtype=Corres_dtype), []
+        raise
 
     # we do not need number of particles, reading till EOF
     n_particles = int(filein.readline())
@@ -749,7 +750,7 @@ def read_path_frame(
             linkagein = open(fname, "r", encoding="utf-8")
         except IOError:
             print(f"Can't open linkage file: {fname}")
-            return np.recarray(0, dtype=Corres_dtype), []
+            raise
 
         linkagein.readline()
     else:
@@ -761,7 +762,7 @@ def read_path_frame(
             prioin = open(fname, "r", encoding="utf-8")
         except IOError:
             print(f"Can't open prio file: {fname}")
-            return np.recarray(0, dtype=Corres_dtype), []
+            raise
 
         prioin.readline()
     else:
-- 
2.43.0


From 4e0fcf4ead0574b0e8bee1fe4536a2ea2e5a717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 05/45] fix: refuse a truncated rt_is, ptv_is or added file

Rows missing from the file were returned as uninitialised memory, and rows with
missing fields were read as if they were complete.
---
 openptv_python/tracking_frame_buf.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index b09a6ef..cc952c0 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -752,7 +752,8 @@ def read_path_frame(
             print(f"Can't open linkage file: {fname}")
             raise
 
-        linkagein.readline()
+        if int(linkagein.readline()) != n_particles:
+            raise ValueError(f"Bad format for file: {fname}")
     else:
         linkagein = None
 
@@ -764,7 +765,8 @@ def read_path_frame(
             print(f"Can't open prio file: {fname}")
             raise
 
-        prioin.readline()
+        if int(prioin.readline()) != n_particles:
+            raise ValueError(f"Bad format for file: {fname}")
     else:
         prioin = None
 
@@ -774,9 +776,15 @@ def read_path_frame(
         if not line:
             break
 
+        vals = np.fromstring(line, dtype=float, sep=" ")
+        if targets >= n_particles or len(vals) != 8:
+            raise ValueError(f"Bad format for file: {filein.name}")
+
         if linkagein is not None:
             linkage_line = linkagein.readline()
             linkage_vals = np.fromstring(linkage_line, dtype=float, sep=" ")
+            if len(linkage_vals) != 5:
+                raise ValueError(f"Bad format for file: {linkagein.name}")
             path_buf[targets].prev_frame = linkage_vals[0].astype(int)
             path_buf[targets].next_frame = linkage_vals[1].astype(int)
             # path_buf[targets].x = linkage_vals[2:]
@@ -784,6 +792,8 @@ def read_path_frame(
         if prioin is not None:
             prio_line = prioin.readline()
             prio_vals = np.fromstring(prio_line, dtype=float, sep=" ")
+            if len(prio_vals) != 6:
+                raise ValueError(f"Bad format for file: {prioin.name}")
             path_buf[targets].prio = prio_vals[-1].astype(int)
         else:
             path_buf[targets].prio = 4
@@ -793,7 +803,6 @@ def read_path_frame(
         path_buf[targets].decis = [0] * POSI  # type: ignore
         path_buf[targets].linkdecis = [-999] * POSI
 
-        vals = np.fromstring(line, dtype=float, sep=" ")
         cor_buf[targets].nr = targets + 1
         cor_buf[targets].p = vals[-4:].astype(int)
         path_buf[targets].x = vals[1:-4]
@@ -802,6 +811,9 @@ def read_path_frame(
 
         targets += 1
 
+    if targets != n_particles:
+        raise ValueError(f"Bad format for file: {filein.name}")
+
     filein.close()
     if linkagein is not None:
         linkagein.close()
-- 
2.43.0


From 0c709351e21f5cf7849f4360739b34938699a20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 06/45] fix: tracking stops when a frame can't be written

write_frame_from_start returns False then, and all four callers ignored it, so
a run over a full disk ended as if its links had been saved.
---
 openptv_python/track.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 8b19443..d745757 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -1089,7 +1089,8 @@ def trackcorr_c_loop(run_info, step):
     run_info.nlinks = run_info.nlinks + count1
 
     fb.fb_next()
-    fb.write_frame_from_start(step)
+    if not fb.write_frame_from_start(step):
+        raise IOError(f"Could not write frame {step} to disk")
 
     if step < run_info.seq_par.last - 2:
         fb.read_frame_at_end(step + 3, False)
@@ -1105,7 +1106,8 @@ def trackcorr_c_finish(run_info, step: int):
     )
 
     run_info.fb.fb_next()
-    run_info.fb.write_frame_from_start(step)
+    if not run_info.fb.write_frame_from_start(step):
+        raise IOError(f"Could not write frame {step} to disk")
 
 
 def trackback_c(run_info: TrackingRun):
@@ -1301,7 +1303,8 @@ def trackback_c(run_info: TrackingRun):
         nlinks += count1
 
         fb.fb_next()
-        fb.write_frame_from_start(step)
+        if not fb.write_frame_from_start(step):
+            raise IOError(f"Could not write frame {step} to disk")
 
         if step > seq_par.first + 2:
             fb.read_frame_at_end(step - 3, read_links=True)
@@ -1325,7 +1328,8 @@ def trackback_c(run_info: TrackingRun):
     )
 
     fb.fb_next()
-    fb.write_frame_from_start(step)
+    if not fb.write_frame_from_start(step):
+        raise IOError(f"Could not write frame {step} to disk")
 
     return nlinks
 
-- 
2.43.0


From 72d0ce15c05efbd13cd1f4f89992d94cc83628af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 07/45] fix: trackback_c writes the first frame under its own
 number

A Python for loop leaves step at first + 1, so the results of that frame were
overwritten by those of the first frame.
---
 openptv_python/track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index d745757..173543c 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -1328,8 +1328,8 @@ def trackback_c(run_info: TrackingRun):
     )
 
     fb.fb_next()
-    if not fb.write_frame_from_start(step):
-        raise IOError(f"Could not write frame {step} to disk")
+    if not fb.write_frame_from_start(seq_par.first):
+        raise IOError(f"Could not write frame {seq_par.first} to disk")
 
     return nlinks
 
-- 
2.43.0


From 781df96a8f7f2058670235754d8596ce57ed7e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 08/45] fix: an unused candidate is not the last target of the
 camera

candsearch_in_pix marks unused candidates with -1 (TR_UNUSED), but
register_closest_neighbs looked for -999 and took targets[-1] as a candidate.
---
 openptv_python/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 173543c..4ec703c 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -137,7 +137,7 @@ def register_closest_neighbs(
 
     for cand_idx in range(MAX_CANDS):
         # Set default value for unused foundpix objects
-        if all_cands[cand_idx] == PT_UNUSED:
+        if all_cands[cand_idx] == TR_UNUSED:
             reg[cand_idx].ftnr = TR_UNUSED
         else:
             # Register candidate data in the foundpix object
-- 
2.43.0


From 3be324da46f465b2a3ba51688d32dbcd06e4177a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 09/45] fix: add_particle fills only the row of the particle it
 adds

It wrote the candidates into the first rows of the frame's correspondences
instead, and for a camera without a candidate relabelled its last target.
---
 openptv_python/track.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 4ec703c..f0aa6c0 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -15,7 +15,6 @@ from .constants import (
     NEXT_NONE,
     POS_INF,
     PREV_NONE,
-    PT_UNUSED,
     TR_BUFSPACE,
     TR_MAX_CAMS,
     TR_UNUSED,
@@ -731,16 +730,18 @@ def add_particle(frm: Frame, pos: np.ndarray, cand_inds: np.ndarray) -> None:
     - cand_inds (list[list[int]]): Indices of candidate targets for association with this particle.
     """
     num_parts = frm.num_parts
-    if num_parts > len(frm.path_info):
+    if num_parts < len(frm.path_info):
         ref_path_inf = frm.path_info[num_parts]
-        ref_corres = frm.correspond[num_parts]
     else:
         ref_path_inf = Pathinfo()
         frm.path_info.append(ref_path_inf)
         frm.correspond = np.resize(frm.correspond, frm.correspond.shape[0] + 1).view(
             np.recarray
         )
-        ref_corres = frm.correspond.view(np.recarray)
+    ref_corres = frm.correspond[num_parts]
+
+    # the cameras the frame doesn't have
+    ref_corres.p[:] = CORRES_NONE
 
     ref_path_inf.x = vec_copy(pos)
     ref_path_inf.reset_links()
@@ -751,7 +752,7 @@ def add_particle(frm: Frame, pos: np.ndarray, cand_inds: np.ndarray) -> None:
         ref_corres.p[cam] = CORRES_NONE
 
         # We always take the 1st candidate, apparently. Why did we fetch 4?
-        if cand_inds[cam][0] != PT_UNUSED:
+        if cand_inds[cam][0] != TR_UNUSED:
             _ix = cand_inds[cam][0]
             ref_targets[cam][_ix].tnr = num_parts
             ref_corres.p[cam] = _ix
-- 
2.43.0


From 68d49ba2b54fd8bfa8673c61294eb5a812a22a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 10/45] fix: correspondences takes cliques only from the
 candidates just matched

The whole scratch buffer went to take_best_candidates, whose all-zero rows made
a clique of the first targets of all cameras whenever one of these was free.
---
 openptv_python/correspondences.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index 0bcb08f..76fda67 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -653,31 +653,31 @@ def correspondences(
 
     # search consistent quadruplets in the corr_list
     if cpar.num_cams == 4:
-        four_camera_matching(
+        matched = four_camera_matching(
             corr_list, frm.num_targets[0], vpar.corrmin, con0, 4 * nmax
         )
 
-        match_counts[0] = take_best_candidates(con0, con, cpar.num_cams, tim)
+        match_counts[0] = take_best_candidates(con0[:matched], con, cpar.num_cams, tim)
         match_counts[3] += match_counts[0]
 
     # search consistent triplets: 123, 124, 134, 234
     if (cpar.num_cams == 4 and cpar.all_cam_flag == 0) or cpar.num_cams == 3:
-        three_camera_matching(
+        matched = three_camera_matching(
             corr_list, cpar.num_cams, frm.num_targets, vpar.corrmin, con0, 4 * nmax, tim
         )
 
         match_counts[1] = take_best_candidates(
-            con0, con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim
+            con0[:matched], con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim
         )
         match_counts[3] += match_counts[1]
 
     # Search consistent pairs: 12, 13, 14, 23, 24, 34
     if cpar.num_cams > 1 and cpar.all_cam_flag == 0:
-        consistent_pair_matching(
+        matched = consistent_pair_matching(
             corr_list, cpar.num_cams, frm.num_targets, vpar.corrmin, con0, 4 * nmax, tim
         )
         match_counts[2] = take_best_candidates(
-            con0, con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim
+            con0[:matched], con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim
         )
         match_counts[3] += match_counts[2]
 
-- 
2.43.0


From 99806f4ee093dbd2b523a8b8ed1b52895f8f5192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 11/45] fix: three_camera_matching works for three cameras and
 real candidates only

The clique of a three camera set did not fit the four places of an n_tupel, and
the unused places of the candidate list (all 0) counted as candidate 0.
---
 openptv_python/correspondences.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index 76fda67..bda04f5 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -204,7 +204,9 @@ def three_camera_matching(
                             # we want to find indices, we have to either
                             # modify it to numpy array or use
                             # indices
-                            p2array = np.atleast_1d(corr_list[i2][i3][p2].p2)
+                            p2array = np.atleast_1d(
+                                corr_list[i2][i3][p2].p2[: corr_list[i2][i3][p2].n]
+                            )
                             indices = np.where(p2array == p3)[0]
                             if indices.size == 0:
                                 continue
@@ -228,7 +230,7 @@ def three_camera_matching(
                             if corr <= accept_corr:
                                 continue
 
-                            p = np.full(num_cams, -2)
+                            p = np.full(scratch[matched].p.shape, -2)
                             p[i1], p[i2], p[i3] = p1, p2, p3
                             scratch[matched].p = p
                             scratch[matched].corr = corr
-- 
2.43.0


From 282d09c91b0ce8e8838d8c6cf78831d406e92d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 12/45] fix: py_correspondences works for two and three cameras

correspondences() uses four match counts for any number of cameras.
---
 openptv_python/correspondences.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index bda04f5..be796e4 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -529,7 +529,8 @@ def py_correspondences(
     # int *match_counts = <int *> malloc(num_cams * sizeof(int))
     # n_tupel *corresp_buf
 
-    match_counts = [0] * num_cams
+    # one place per clique size and the total, whatever the number of cameras
+    match_counts = [0] * 4
     # corresp_buf = []  # of n_tupel
 
     # Initialize frame partially, without the extra momory used by init_frame.
@@ -582,7 +583,7 @@ def py_correspondences(
         # sorted_corresp[clique_type] = clique_ids # type: ignore
 
     # Clean up.
-    num_targs = match_counts[num_cams - 1]
+    num_targs = match_counts[3]
 
     return sorted_pos, sorted_corresp, num_targs
 
-- 
2.43.0


From 4ed37bb0c71acb31b87123947b3e81ce46032147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 13/45] fix: point_positions returns the position of every
 point

With several cameras it returned that of the last point only.
---
 openptv_python/orientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 3b7b1a8..529fe4e 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -1060,6 +1060,6 @@ def multi_cam_point_positions(
     rcm = np.empty(num_targets)
 
     for pt in range(num_targets):
-        rcm[pt], res = point_position(targets[pt], num_cams, mm_par, cals)
+        rcm[pt], res[pt] = point_position(targets[pt], num_cams, mm_par, cals)
 
     return res, rcm
-- 
2.43.0


From 1e9f41a65432450abe63ab201bce7c9bfb6db625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 14/45] fix: orient leaves the calibration untouched when it
 doesn't converge

As documented, it now works on a copy.
---
 openptv_python/orientation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 529fe4e..7f08c43 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -1,5 +1,6 @@
 """Functions for the orientation of the camera."""
 
+import copy
 from typing import List, Optional, Tuple
 
 import numpy as np
@@ -278,6 +279,9 @@ def orient(
 
     # sigmabeta = np.zeros(NPAR,)
 
+    # work on a copy, cal_in is updated only when the iteration converged
+    cal_in, cal = cal, copy.deepcopy(cal)
+
     if flags.interfflag:
         numbers = 18
     else:
@@ -607,6 +611,10 @@ def orient(
 
     if stopflag:
         cal.update_rotation_matrix()
+        cal_in.ext_par = cal.ext_par
+        cal_in.int_par = cal.int_par
+        cal_in.glass_par = cal.glass_par
+        cal_in.added_par = cal.added_par
         return resi
     else:
         return None
-- 
2.43.0


From f6372b767f45c1df658055f21c36d5bc9fd3f05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 15/45] fix: sortgrid doesn't renumber the detections of its
 caller

The sorted targets were the caller's own, so a detection nearest to two known
points lost the number of the first one when it got that of the second.
---
 openptv_python/sortgrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openptv_python/sortgrid.py b/openptv_python/sortgrid.py
index 63d2b34..fef8b82 100644
--- a/openptv_python/sortgrid.py
+++ b/openptv_python/sortgrid.py
@@ -1,3 +1,4 @@
+import copy
 from pathlib import Path
 from typing import List
 
@@ -62,7 +63,7 @@ def sortgrid(
             j = nearest_neighbour_pix(pix, calib_point[0], calib_point[1], eps)
 
             if j != -999:
-                sorted_pix[i] = pix[j]
+                sorted_pix[i] = copy.copy(pix[j])
                 sorted_pix[i].pnr = i
 
     return sorted_pix
-- 
2.43.0


From da529dceab30941ecc2809f047d16870bd7f29da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 16/45] fix: full_calibration pairs residuals with the points
 they belong to

Points without a detection, or excluded by useflag, have no rows in the
residuals of orient, so the rows after the first such point were shifted.
---
 openptv_python/orientation.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 7f08c43..c89e088 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -194,6 +194,17 @@ def num_deriv_exterior(
     return (x_ders, y_ders)
 
 
+def point_is_used(i: int, flags: OrientPar) -> bool:
+    """Tell whether useflag lets orient use the point of index i."""
+    if flags.useflag == 1:
+        return i % 2 != 0
+    if flags.useflag == 2:
+        return i % 2 == 0
+    if flags.useflag == 3:
+        return i % 3 != 0
+    return True
+
+
 def orient(
     cal: Calibration,
     cpar: ControlPar,
@@ -335,11 +346,7 @@ def orient(
             if pix[i].pnr != i:  # we need to check this point here
                 continue
 
-            if flags.useflag == 1 and i % 2 == 0:
-                continue
-            elif flags.useflag == 2 and i % 2 != 0:
-                continue
-            elif flags.useflag == 3 and i % 3 == 0:
+            if not point_is_used(i, flags):
                 continue
 
             # get metric flat-image coordinates of the detected point
@@ -894,12 +901,16 @@ def full_calibration(
         print(f"Residuals = {residuals}")
         raise ValueError("Orientation iteration failed, need better setup.")
 
-    ret = np.empty((len(img_pts), 2))
-    used = np.empty(len(img_pts), dtype=np.int_)
-
-    for ix, img_pt in enumerate(targs):
-        ret[ix] = (residuals[2 * ix], residuals[2 * ix + 1])
-        used[ix] = img_pt.pnr
+    # orient skips the points without a detection, and those useflag excludes
+    used = np.array(
+        [
+            ix
+            for ix in range(len(ref_pts))
+            if targs[ix].pnr == ix and point_is_used(ix, orient_par)
+        ],
+        dtype=np.int_,
+    )
+    ret = residuals[: 2 * len(used)].reshape(-1, 2)
 
     # free(residuals)
     return ret, used, err_est
-- 
2.43.0


From 5df2fb23e9cfeb85c17739850547a1115d225267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 17/45] fix: read_ori returns the calibration it read

from_file is a class method, its result was dropped and the default returned.
---
 openptv_python/calibration.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index b948199..3455076 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -442,10 +442,7 @@ def read_ori(ori_file: Path, add_file: Path) -> Calibration:
     -------
     - ext_par, int_par, glass, addp: Calibration object parts without multimedia lookup table.
     """
-    ret = Calibration()
-    ret.from_file(ori_file, add_file)
-
-    return ret
+    return Calibration.from_file(ori_file, add_file)
 
 
 def compare_exterior(e1: np.recarray, e2: np.recarray) -> bool:
-- 
2.43.0


From e393648541c2ec313b870642c780033927d64c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 18/45] fix: writing a calibration without an addpar file is
 not a failure

write_ori returned False after a complete write and Calibration.write raised.
---
 openptv_python/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 3455076..46bacc4 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -416,7 +416,7 @@ def write_ori(
         fp.write(f"\n{glass[0]:.15f} {glass[1]:.15f} {glass[2]:.15f}\n")
 
     if add_file is None:
-        return success
+        return True
 
     with open(add_file, "w", encoding="utf-8") as fp:
         fp.write(
-- 
2.43.0


From 1ae753345f7db326584b0420daea16d1338e1b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 19/45] fix: ControlPar read from YAML holds its multimedia
 parameters

from_yaml left mm a plain dict, and from_dict changed the caller's dict, so it
could not be used a second time.
---
 openptv_python/parameters.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index a5ea3d2..3027673 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -457,9 +457,16 @@ class ControlPar(Parameters):
     @classmethod
     def from_dict(cls, data):
         """Read ControlPar from a dictionary."""
-        mm_data = data.get("mm", {})
-        data["mm"] = MultimediaPar.from_dict(mm_data)
-        return cls(**data)
+        mm = data.get("mm", {})
+        if not isinstance(mm, MultimediaPar):
+            mm = MultimediaPar.from_dict(mm)
+        return cls(**{**data, "mm": mm})
+
+    @classmethod
+    def from_yaml(cls, file_path: Path):
+        """Read from YAML file."""
+        with open(file_path, "r", encoding="utf-8") as file:
+            return cls.from_dict(yaml.safe_load(file))
 
     def set_image_size(self, imsize: Tuple[int, int]):
         """Set image size in pixels."""
-- 
2.43.0


From 933195c88c7d100775fda39849bfc88a8ad42541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 20/45] fix: PftVersionPar.write writes the flag of the object,
 as from_file reads it

It wrote the class default as "False", which from_file can't parse.
---
 openptv_python/parameters.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index 3027673..13663fb 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -873,8 +873,7 @@ class PftVersionPar(Parameters):
             pft_version = bool(int(file.readline().strip()))
         return cls(pft_version)
 
-    @classmethod
-    def write(cls, file_path: Path):
+    def write(self, file_path: Path):
         """Write to pft_version.par file."""
         with open(file_path, "w", encoding="utf-8") as file:
-            file.write(f"{cls.existing_target_flag}\n")
+            file.write(f"{int(self.existing_target_flag)}\n")
-- 
2.43.0


From 6e5da86fff7e8682d40a84fc0d68108d50aa2a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 21/45] fix: parameter files that can't be read are reported as
 such

TargetPar and OrientPar returned the defaults, or after an error half way what
had been read so far; TrackPar raised a string, which is a TypeError.
---
 openptv_python/parameters.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index 13663fb..f3ec6f8 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -231,7 +231,9 @@ class TrackPar(Parameters):
                 dacc = float(fpp.readline().rstrip())
                 add = int(fpp.readline().rstrip())
         except IOError as exc:
-            raise (f"Error reading tracking parameters from {filename}") from exc  # type: ignore
+            raise IOError(
+                f"Error reading tracking parameters from {filename}"
+            ) from exc
 
         return cls(dvxmin, dvxmax, dvymin, dvymax, dvzmin, dvzmax, dangle, dacc, add)
 
@@ -670,7 +672,7 @@ class TargetPar(Parameters):
             # return ret
         except IOError:
             print(f"Could not open target recognition parameters file {filename}.")
-            # return None
+            raise
 
         return ret
 
@@ -763,6 +765,7 @@ class OrientPar(Parameters):
 
         except IOError:
             print(f"Could not open orientation parameters file {filename}.")
+            raise
 
         return ret
 
-- 
2.43.0


From 308436ad37e4b913e7e86a32410151dabd0b484a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 22/45] fix: refuse an ori file that ends within the glass
 vector

The vector was set to the one or two numbers that were left.
---
 openptv_python/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 46bacc4..ef31a05 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -159,7 +159,7 @@ class Calibration:
         # no need. set_angles updates rotation matrix automatically
         # ret.set_rotation_matrix(data[6:15].reshape(3, 3))
         ret.set_primary_point(data[15:18])  # xh, yh, cc
-        ret.glass_par = data[18:]  # glass position vector from the water side
+        ret.set_glass_vec(data[18:21])  # glass position vector from the water side
 
         # double-check that we have the correct rotation matrix
         # self.ext_par.rotation_matrix()
-- 
2.43.0


From 487874b620b09258199a406e68c1da109a5bdd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 23/45] fix: init_mmlut fills the table again when it is called
 again

Called for another volume it set a new origin and size, but kept the old values.
---
 openptv_python/multimed.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index d2a32c2..1d3fd35 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -317,18 +317,17 @@ def init_mmlut(vpar: VolumePar, cpar: ControlPar, cal: Calibration) -> Calibrati
     cal.mmlut.nz = nz
     cal.mmlut.rw = rw
 
-    if cal.mmlut_data.shape == (0, 0):
-        cal.mmlut_data = np.empty((nr, nz), dtype=np.float64)
-        Ri = np.arange(nr) * rw
-        Zi = np.arange(nz) * rw + z_min_t
-
-        for i in range(nr):
-            for j in range(nz):
-                xyz = np.r_[Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]]
-                cal.mmlut_data.flat[i * nz + j] = multimed_r_nlay(cal_t, cpar.mm, xyz)
-
-        # print(f"filled mmlut data with {data}")
-        # cal.mmlut_data = data
+    cal.mmlut_data = np.empty((nr, nz), dtype=np.float64)
+    Ri = np.arange(nr) * rw
+    Zi = np.arange(nz) * rw + z_min_t
+
+    for i in range(nr):
+        for j in range(nz):
+            xyz = np.r_[Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]]
+            cal.mmlut_data.flat[i * nz + j] = multimed_r_nlay(cal_t, cpar.mm, xyz)
+
+    # print(f"filled mmlut data with {data}")
+    # cal.mmlut_data = data
 
     return cal
 
-- 
2.43.0


From 668194a481f8c57622ee4a80c9ae4ef366a76d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 24/45] fix: the multimedia lookup table has no values beyond
 its last node

A point in the last row or column was interpolated with a node of the next row
or raised IndexError, one just below the table was extrapolated.
---
 openptv_python/multimed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index 1d3fd35..fa7b511 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -360,9 +360,9 @@ def fast_get_mmf_from_mmlut(
     ir = int(sr)
     sr -= ir
 
-    if ir > nr:
+    if ir >= nr - 1:
         return 0.0
-    if iz < 0 or iz > nz:
+    if sz < 0 or iz >= nz - 1:
         return 0.0
 
     # bilinear interpolation in r/z box
-- 
2.43.0


From 6245b5a4f6264a83c58b2fb98a6bafe2a389bb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 25/45] fix: sorting link candidates doesn't lose the less
 frequent ones

---
 openptv_python/track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index f0aa6c0..3792166 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -507,7 +507,7 @@ def sort_candidates_by_freq(foundpix: np.ndarray, num_cams: int) -> int:
     for i in range(1, num_cams * MAX_CANDS):
         for j in range(num_cams * MAX_CANDS - 1, i - 1, -1):
             if foundpix[j - 1].freq < foundpix[j].freq:
-                foundpix[j - 1], foundpix[j] = foundpix[j], foundpix[j - 1]
+                foundpix[[j - 1, j]] = foundpix[[j, j - 1]]
 
     # prune the duplicates or those that are found only once
     for i in range(num_cams * MAX_CANDS):
@@ -520,7 +520,7 @@ def sort_candidates_by_freq(foundpix: np.ndarray, num_cams: int) -> int:
     for i in range(1, num_cams * MAX_CANDS):
         for j in range(num_cams * MAX_CANDS - 1, i - 1, -1):
             if foundpix[j - 1].freq < foundpix[j].freq:
-                foundpix[j - 1], foundpix[j] = foundpix[j], foundpix[j - 1]
+                foundpix[[j - 1, j]] = foundpix[[j, j - 1]]
 
     for i in range(num_cams * MAX_CANDS):
         if foundpix[i].freq != 0:
-- 
2.43.0


From aa5790e615d04b6c16c53ba999212c7d35dbf730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 26/45] fix: refuse a calibration block file with fewer points
 than it says

---
 openptv_python/orientation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index c89e088..a9fc796 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -747,6 +747,8 @@ def read_calblock(filename):
     with open(filename, "r", encoding="utf-8") as f:
         lines = f.readlines()
         num_fix = int(lines[0])
+        if len(lines) - 1 < num_fix:
+            raise ValueError(f"Bad format for file: {filename}")
         fix = np.zeros((num_fix, 3))
         for i, line in enumerate(lines[1:]):
             parts = line.split()
-- 
2.43.0


From 70ceb3b000984de30a431c54e5766cf84bb1a76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 27/45] fix: refuse a multi-planes file with fewer planes than
 it says

---
 openptv_python/parameters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index f3ec6f8..9f05b51 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -836,6 +836,8 @@ class MultiPlanesPar(Parameters):
         with open(file_path, "r", encoding="utf-8") as file:
             num_planes = int(file.readline().strip())
             filename = [file.readline().strip() for _ in range(num_planes)]
+        if not all(filename):
+            raise ValueError(f"Bad format for file: {file_path}")
         return cls(num_planes, filename)
 
 
-- 
2.43.0


From 31202219ba88f444d2661de8e11f6cd9d6253cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:50 +0000
Subject: [PATCH 28/45] fix: the angle of a straight path is a number

---
 openptv_python/track.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 3792166..054c953 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -260,9 +260,9 @@ def angle_acc(start: np.ndarray, pred: np.ndarray, cand: np.ndarray) -> np.ndarr
         norm_start_pred = np.linalg.norm(start - pred)
         norm_start_cand = np.linalg.norm(start - cand)
 
-        angle = (200.0 / np.pi) * np.arccos(
-            dot_product / (norm_start_pred * norm_start_cand)
-        )
+        # rounding may take the cosine of a straight path out of its range
+        cosine = dot_product / (norm_start_pred * norm_start_cand)
+        angle = (200.0 / np.pi) * np.arccos(min(max(cosine, -1.0), 1.0))
 
     return np.array([angle, acc])
 
-- 
2.43.0


From e11c59f7d03908450bf9874657180979ab5b8127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 29/45] fix: tracking doesn't stop at a particle that rested

---
 openptv_python/track.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 054c953..3e3468d 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -260,9 +260,12 @@ def angle_acc(start: np.ndarray, pred: np.ndarray, cand: np.ndarray) -> np.ndarr
         norm_start_pred = np.linalg.norm(start - pred)
         norm_start_cand = np.linalg.norm(start - cand)
 
-        # rounding may take the cosine of a straight path out of its range
-        cosine = dot_product / (norm_start_pred * norm_start_cand)
-        angle = (200.0 / np.pi) * np.arccos(min(max(cosine, -1.0), 1.0))
+        if norm_start_pred == 0 or norm_start_cand == 0:
+            angle = 200  # a particle at rest has no direction
+        else:
+            # rounding may take the cosine of a straight path out of its range
+            cosine = dot_product / (norm_start_pred * norm_start_cand)
+            angle = (200.0 / np.pi) * np.arccos(min(max(cosine, -1.0), 1.0))
 
     return np.array([angle, acc])
 
-- 
2.43.0


From 71c34d5d00126d3738fbecf3d58506be0b7d5dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 30/45] fix: correspondences clears the numbers an earlier
 matching left

---
 openptv_python/correspondences.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index be796e4..e6455b4 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -684,6 +684,11 @@ def correspondences(
         )
         match_counts[3] += match_counts[2]
 
+    # What an earlier matching left doesn't hold any more
+    for cam in range(cpar.num_cams):
+        for targ in frm.targets[cam][: frm.num_targets[cam]]:
+            targ.tnr = CORRES_NONE
+
     # Give each used pix the correspondence number
     for i in range(match_counts[3]):
         for j in range(cpar.num_cams):
-- 
2.43.0


From b826cc7ea4841d47fde9471482313aff53a04991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:32 +0000
Subject: [PATCH 31/45] fix: orient doesn't apply the distortion twice

---
 openptv_python/orientation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index a9fc796..ba22aea 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -19,7 +19,7 @@ from .parameters import ControlPar, MultimediaPar, OrientPar, VolumePar
 from .ray_tracing import ray_tracing
 from .sortgrid import sortgrid
 from .tracking_frame_buf import Target
-from .trafo import correct_brown_affine, pixel_to_metric
+from .trafo import pixel_to_metric
 from .vec_utils import unit_vector, vec_norm, vec_set
 
 
@@ -349,9 +349,9 @@ def orient(
             if not point_is_used(i, flags):
                 continue
 
-            # get metric flat-image coordinates of the detected point
+            # get metric coordinates of the detected point, distorted as are those
+            # of the projection
             xc, yc = pixel_to_metric(pix[i].x, pix[i].y, cpar)
-            xc, yc = correct_brown_affine(xc, yc, cal.added_par)
 
             # Projected 2D position on sensor of corresponding known point
             cal.update_rotation_matrix()
-- 
2.43.0


From 2895ed53c371a880dab8d0e43290e093adf713cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:57 +0000
Subject: [PATCH 32/45] fix: init_mmlut sets the table when it is complete

---
 openptv_python/multimed.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index fa7b511..2a17d10 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -312,22 +312,21 @@ def init_mmlut(vpar: VolumePar, cpar: ControlPar, cal: Calibration) -> Calibrati
     nz = int((z_max_t - z_min_t) / rw + 1)
 
     # create two dimensional mmlut structure
-    cal.mmlut.origin = np.r_[cal_t.ext_par.x0, cal_t.ext_par.y0, z_min_t]
-    cal.mmlut.nr = nr
-    cal.mmlut.nz = nz
-    cal.mmlut.rw = rw
-
-    cal.mmlut_data = np.empty((nr, nz), dtype=np.float64)
+    data = np.empty((nr, nz), dtype=np.float64)
     Ri = np.arange(nr) * rw
     Zi = np.arange(nz) * rw + z_min_t
 
     for i in range(nr):
         for j in range(nz):
             xyz = np.r_[Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]]
-            cal.mmlut_data.flat[i * nz + j] = multimed_r_nlay(cal_t, cpar.mm, xyz)
+            data.flat[i * nz + j] = multimed_r_nlay(cal_t, cpar.mm, xyz)
 
     # print(f"filled mmlut data with {data}")
-    # cal.mmlut_data = data
+    cal.mmlut.origin = np.r_[cal_t.ext_par.x0, cal_t.ext_par.y0, z_min_t]
+    cal.mmlut.nr = nr
+    cal.mmlut.nz = nz
+    cal.mmlut.rw = rw
+    cal.mmlut_data = data
 
     return cal
 
-- 
2.43.0


From 5e43c0444581937d5860e636da7842c0589c8c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:58 +0000
Subject: [PATCH 33/45] fix: full_calibration doesn't return uninitialised
 memory as error estimates

---
 openptv_python/orientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index ba22aea..3157410 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -879,7 +879,7 @@ def full_calibration(
     ------
     ValueError if iteration did not converge.
     """
-    err_est = np.empty((NPAR + 1), dtype=np.float64)
+    err_est = np.zeros((NPAR + 1), dtype=np.float64)
 
     if isinstance(img_pts, np.ndarray):
         # convert numpy array to list of Target objects
-- 
2.43.0


From eb8e39e020cbeec84d28426d219447aeaf7b8b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:21 +0000
Subject: [PATCH 34/45] fix: each layer of a wall refracts by its own index

---
 openptv_python/multimed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index 2a17d10..a76a070 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -83,13 +83,13 @@ def fast_multimed_r_nlay(
 
     while abs(rdiff) > 0.001 and it < n_iter:
         beta1 = np.arctan(rq / zdiff)
-        beta2 = np.arcsin(np.sin(beta1) * n1 / n2[0])
+        beta2 = np.arcsin(np.sin(beta1) * n1 / n2[:nlay])
         beta3 = np.arcsin(np.sin(beta1) * n1 / n3)
 
         rbeta = (
             (z0 - d[0]) * np.tan(beta1)
             - zout * np.tan(beta3)
-            + np.sum(d * np.tan(beta2))
+            + np.sum(d[:nlay] * np.tan(beta2))
         )
 
         rdiff = r - rbeta
-- 
2.43.0


From 95059993a8b2f4388252fbadf9351e8fbb86782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:53 +0000
Subject: [PATCH 35/45] fix: Calibration.set_rotation_matrix failed always

---
 openptv_python/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index ef31a05..5c42249 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -222,7 +222,7 @@ class Calibration:
         """Set exterior rotation matrix."""
         if dm.shape != (3, 3):
             raise ValueError("Illegal argument for exterior rotation matrix")
-        self.ext_par[0]["dm"] = dm
+        self.ext_par["dm"] = dm
 
     def set_pos(self, pos: np.ndarray) -> None:
         """
-- 
2.43.0


From 1bb456fd360be3cc82b115ea17a1718b7eb2d2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:53 +0000
Subject: [PATCH 36/45] fix: Calibration.copy copied nothing

---
 openptv_python/calibration.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 5c42249..e8fb92d 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -386,12 +386,12 @@ class Calibration:
 
     def copy(self, new_copy):
         """Copy the calibration data to a new object."""
-        new_copy = Calibration()
-        new_copy.ext_par = self.ext_par
-        new_copy.int_par = self.int_par
-        new_copy.glass_par = self.glass_par
-        new_copy.added_par = self.added_par
-        new_copy.mmlut = self.mmlut
+        new_copy.ext_par = copy.deepcopy(self.ext_par)
+        new_copy.int_par = copy.deepcopy(self.int_par)
+        new_copy.glass_par = self.glass_par.copy()
+        new_copy.added_par = self.added_par.copy()
+        new_copy.mmlut = copy.deepcopy(self.mmlut)
+        new_copy.mmlut_data = self.mmlut_data.copy()
 
 
 def write_ori(
-- 
2.43.0


From 2e232afd14c305720f1648b7b3f90f70d6cf6391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:53 +0000
Subject: [PATCH 37/45] fix: getters of a calibration handed out arrays that
 change with it

---
 openptv_python/calibration.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index e8fb92d..96ebf53 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -318,7 +318,7 @@ class Calibration:
         array, from lowest power to highest.
         """
         # return np.r_[self.added_par.k1, self.added_par.k2, self.added_par.k3]
-        return self.added_par[:3]
+        return self.added_par[:3].copy()
 
     def set_decentering(self, decent: np.ndarray) -> None:
         """
@@ -337,7 +337,7 @@ class Calibration:
     def get_decentering(self):
         """Return the decentering parameters [1] as a 2 element array, (p_1, p_2)."""
         # return np.r_[self.added_par.p1, self.added_par.p2]
-        return self.added_par[3:5]
+        return self.added_par[3:5].copy()
 
     def set_affine_distortion(self, affine: np.ndarray) -> None:
         """
@@ -356,7 +356,7 @@ class Calibration:
     def get_affine(self):
         """Return the affine transform parameters [1] as a 2 element array, (scx, she)."""
         # return np.r_[self.added_par.scx, self.added_par.she]
-        return self.added_par[5:]
+        return self.added_par[5:].copy()
 
     def set_glass_vec(self, gvec: np.ndarray):
         """
@@ -377,7 +377,7 @@ class Calibration:
 
     def get_glass_vec(self) -> np.ndarray:
         """Return the glass vector, a 3-element array of float."""
-        return self.glass_par
+        return self.glass_par.copy()
 
     def set_added_par(self, ap52_array: np.ndarray):
         """Set added par from an numpy array of parameters."""
-- 
2.43.0


From 02fe7225eaa35a57105168374bdbc7b438263bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:58 +0000
Subject: [PATCH 38/45] fix: orient put the glass back to where it started in
 every iteration

With interfflag the corrections of the glass were lost with the derivatives
of the next iteration, so the adjustment never converged through refracting
walls.
---
 openptv_python/orientation.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 3157410..a538fba 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -331,17 +331,18 @@ def orient(
         cal.added_par[6],
     ]
 
-    # backup for changing back and forth
-    safety_x = cal.glass_par[0]
-    safety_y = cal.glass_par[1]
-    safety_z = cal.glass_par[2]
-
     itnum = 0
     stopflag = False
     n = 0
     while not (stopflag or itnum >= NUM_ITER):
         itnum += 1
         n = 0
+
+        # backup for changing back and forth
+        safety_x = cal.glass_par[0]
+        safety_y = cal.glass_par[1]
+        safety_z = cal.glass_par[2]
+
         for i in range(nfix):
             if pix[i].pnr != i:  # we need to check this point here
                 continue
-- 
2.43.0


From d0409848677f55f614a97c123cc142057ff45740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:58 +0000
Subject: [PATCH 39/45] fix: orient tilted the glass along directions not
 perpendicular to it

The two cross products mixed up components, which changed the distance of a
glass that doesn't face along z, or left a direction of zeros.
---
 openptv_python/orientation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index a538fba..86d36e8 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -301,15 +301,15 @@ def orient(
     glass_dir = cal.glass_par
     nGl = vec_norm(glass_dir)
 
-    e1_x = 2 * cal.glass_par[2] - 3 * cal.glass_par[0]
+    e1_x = 2 * cal.glass_par[2] - 3 * cal.glass_par[1]
     e1_y = 3 * cal.glass_par[0] - 1 * cal.glass_par[2]
-    e1_z = 1 * cal.glass_par[1] - 2 * cal.glass_par[1]
+    e1_z = 1 * cal.glass_par[1] - 2 * cal.glass_par[0]
     tmp_vec = vec_set(e1_x, e1_y, e1_z)
     e1 = unit_vector(tmp_vec)
 
-    e2_x = e1_y * cal.glass_par[2] - e1_z * cal.glass_par[0]
+    e2_x = e1_y * cal.glass_par[2] - e1_z * cal.glass_par[1]
     e2_y = e1_z * cal.glass_par[0] - e1_x * cal.glass_par[2]
-    e2_z = e1_x * cal.glass_par[1] - e1_y * cal.glass_par[1]
+    e2_z = e1_x * cal.glass_par[1] - e1_y * cal.glass_par[0]
     tmp_vec = vec_set(e2_x, e2_y, e2_z)
     e2 = unit_vector(tmp_vec)
 
-- 
2.43.0


From 0fe70dccf8cb118fba0394991e6eba1a2f28301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:35 +0000
Subject: [PATCH 40/45] fix: volumedimension reflected the lower limit of the
 volume at the glass

The sight lines were followed to z_min + pos[2] instead of z_min - pos[2], so
that what the cameras see at the far end of the volume wasn't in it.
---
 openptv_python/multimed.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index a76a070..432a241 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -425,9 +425,8 @@ def volumedimension(
 
                 pos, a = ray_tracing(x, y, cal[i_cam], cpar.mm)
 
-                # TODO: seems that it should be + pos[2] instead of - pos[2]
-                X = pos[0] + (z_min + pos[2]) * a[0] / a[2]
-                Y = pos[1] + (z_min + pos[2]) * a[1] / a[2]
+                X = pos[0] + (z_min - pos[2]) * a[0] / a[2]
+                Y = pos[1] + (z_min - pos[2]) * a[1] / a[2]
 
                 if X > xmax:
                     xmax = X
-- 
2.43.0


From 65ed682289c1eca41865cec2d648b74730148cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:23 +0000
Subject: [PATCH 41/45] fix: raw_orient changed the camera when it didn't
 converge

A failed or interrupted orientation left a diverged pose and no distortion
in the calibration given, though it reports failure. It works on a copy
now, as orient does.
---
 openptv_python/orientation.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 86d36e8..47ae19c 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -637,7 +637,10 @@ def raw_orient(
     dm: float = 1e-4,
     drad: float = 1e-4,
 ) -> bool:
-    """Calculate orientation of the camera, updating its calibration."""
+    """Calculate orientation of the camera, updating its calibration.
+
+    The calibration is left as it was if the iteration doesn't converge.
+    """
     # the original C file says nfix is typically 4, but why X is 10 x 6 and not 8?
 
     # X = np.zeros((10, 6))
@@ -658,6 +661,10 @@ def raw_orient(
     # cal.added_par[4] = 0
     # cal.added_par[5] = 1
     # cal.added_par[6] = 0
+
+    # work on a copy, cal_in is updated only when the iteration converged
+    cal_in, cal = cal, copy.deepcopy(cal)
+
     cal.added_par = np.array([0, 0, 0, 0, 0, 1, 0], dtype=np.float64)
     itnum = 0
     stopflag = False
@@ -709,6 +716,8 @@ def raw_orient(
 
     if stopflag:
         cal.update_rotation_matrix()
+        cal_in.ext_par = cal.ext_par
+        cal_in.added_par = cal.added_par
 
     return stopflag
 
-- 
2.43.0


From 32a1984ea093cc4fda41a34872dd4ed9f16d48c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:48 +0000
Subject: [PATCH 42/45] fix: comparisons ignored fields: distortion of a
 calibration, further layers of a wall

---
 openptv_python/calibration.py | 1 +
 openptv_python/parameters.py  | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 96ebf53..cc91c26 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -488,6 +488,7 @@ def compare_calibration(c1: Calibration, c2: Calibration) -> bool:
         compare_exterior(c1.ext_par, c2.ext_par)
         and compare_interior(c1.int_par, c2.int_par)
         and compare_glass(c1.glass_par, c2.glass_par)
+        and compare_addpar(c1.added_par, c2.added_par)
     )
 
 
diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index 9f05b51..822445c 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -113,12 +113,12 @@ class MultimediaPar(Parameters):
 
 def compare_mm_np(mm_np1: MultimediaPar, mm_np2: MultimediaPar) -> bool:
     """Compare two MultimediaPar objects."""
-    return (mm_np1.nlay, mm_np1.n1, mm_np1.n3, mm_np1.n2[0], mm_np1.d[0]) == (
+    return (mm_np1.nlay, mm_np1.n1, mm_np1.n3, list(mm_np1.n2), list(mm_np1.d)) == (
         mm_np2.nlay,
         mm_np2.n1,
         mm_np2.n3,
-        mm_np2.n2[0],
-        mm_np2.d[0],
+        list(mm_np2.n2),
+        list(mm_np2.d),
     )
 
 
-- 
2.43.0


From c19a851d6530bf50810e5cdd67ba820f58c3eff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:40 +0000
Subject: [PATCH 43/45] fix: velocity limits of added particles were applied to
 the wrong difference

---
 openptv_python/track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 3e3468d..dcf6803 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -949,7 +949,7 @@ def trackcorr_c_loop(run_info, step):
                 ):
                     in_volume = 1
 
-                diff_pos = vec_subt(X[3], X[4])
+                diff_pos = vec_subt(X[4], X[3])
                 # print(f"second diff_pos {diff_pos}")
 
                 if in_volume == 1 and pos3d_in_bounds(diff_pos, tpar):
@@ -1016,7 +1016,7 @@ def trackcorr_c_loop(run_info, step):
                     ):
                         in_volume = 1
 
-                    diff_pos = vec_subt(X[2], X[3])
+                    diff_pos = vec_subt(X[3], X[1])
                     if in_volume == 1 and pos3d_in_bounds(diff_pos, tpar):
                         angle, acc = angle_acc(X[1], X[2], X[3])
                         if (acc < tpar.dacc and angle < tpar.dangle) or (
-- 
2.43.0


From 01ee8e2773fa982205de4a016d4e759cca465cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:17 +0000
Subject: [PATCH 44/45] fix: sight lines were refracted by the first layer of a
 wall only

---
 openptv_python/ray_tracing.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/openptv_python/ray_tracing.py b/openptv_python/ray_tracing.py
index 30c2b34..23615f7 100644
--- a/openptv_python/ray_tracing.py
+++ b/openptv_python/ray_tracing.py
@@ -47,7 +47,7 @@ def ray_tracing(
     primary_point = np.r_[cal.ext_par.x0, cal.ext_par.y0, cal.ext_par.z0]
     glass = np.ascontiguousarray(cal.glass_par)
     camera = np.array([x, y, -cal.int_par.cc], dtype=np.float64, order="C")
-    return fast_ray_tracing(
+    X, out = fast_ray_tracing(
         camera,
         cal.ext_par.dm,
         primary_point,
@@ -58,6 +58,17 @@ def ray_tracing(
         mm.n3,
     )
 
+    # the further layers of the wall lie behind the first one
+    glass_direction = unit_vector(glass)
+    along_glass = out - np.dot(out, glass_direction) * glass_direction
+    for n2, d in zip(mm.n2[1 : mm.nlay], mm.d[1 : mm.nlay]):
+        if d == 0:
+            continue
+        p = along_glass * (mm.n3 / n2)
+        X = X + d * (p / np.sqrt(1 - np.dot(p, p)) - glass_direction)
+
+    return X, out
+
 
 @njit
 def fast_ray_tracing(
-- 
2.43.0


From 046e4ed3c6c0b55d331bb665c5c5ccf49d588396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:09 +0000
Subject: [PATCH 45/45] fix: in images of thousands of targets the first ones
 were no candidates

---
 openptv_python/find_candidate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openptv_python/find_candidate.py b/openptv_python/find_candidate.py
index ce02928..2d1c57a 100644
--- a/openptv_python/find_candidate.py
+++ b/openptv_python/find_candidate.py
@@ -204,4 +204,8 @@ def find_start_point_binary(x: np.ndarray, num: int, xa: float, eps0: float) ->
     if start_point < 0:
         start_point = 0
 
+    # in lists of thousands, truncation may shift by more than that
+    while start_point > 0 and x[start_point - 1] >= xa - eps0:
+        start_point -= 1
+
     return start_point
-- 
2.43.0

