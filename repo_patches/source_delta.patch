From c0dca9d63acb9c6e57d69fd8cb80fc95d0815185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 01/88] fix: Image.copy(copy_data=False) copies the headers it
 promises to copy

---
 corgidrp/data.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 1405464..87b5bca 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -508,6 +508,11 @@ class Image():
             # copy the hdu_list and hdu_names list, but not their pointers
             new_img.hdu_list = self.hdu_list.copy()
             new_img.hdu_names = copy.copy(self.hdu_names)
+            # headers are always copied
+            new_img.pri_hdr = self.pri_hdr.copy()
+            new_img.ext_hdr = self.ext_hdr.copy()
+            new_img.err_hdr = self.err_hdr.copy()
+            new_img.dq_hdr = self.dq_hdr.copy()
 
         # update DRP version tracking
         new_img.ext_hdr['DRPVERSN'] =  corgidrp.__version__
-- 
2.43.0


From 908d9608bf5d800cd2adc17bc1b38e3a73497652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 02/88] fix: prescan_biassub aligns the prescan with the
 requested detector geometry

---
 corgidrp/l1_to_l2a.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/l1_to_l2a.py b/corgidrp/l1_to_l2a.py
index c0d30b6..2465c79 100644
--- a/corgidrp/l1_to_l2a.py
+++ b/corgidrp/l1_to_l2a.py
@@ -80,9 +80,9 @@ def prescan_biassub(input_dataset, noise_maps=None, return_full_frame=False,
                 image_err = np.array(image_err)
 
                 # Get the part of the prescan that lines up with the image
-                i_r0 = detector_areas[arrtype]['image']['r0c0'][0]
-                p_r0 = detector_areas[arrtype]['prescan']['r0c0'][0]
-                i_nrow = detector_areas[arrtype]['image']['rows']
+                i_r0 = detector_regions[arrtype]['image']['r0c0'][0]
+                p_r0 = detector_regions[arrtype]['prescan']['r0c0'][0]
+                i_nrow = detector_regions[arrtype]['image']['rows']
                 al_prescan = prescan[(i_r0-p_r0):(i_r0-p_r0+i_nrow), :]
 
         else:
-- 
2.43.0


From 9f05e4a61749c8cfb2ec1ea1857779f443b0428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 03/88] fix: detect_cosmic_rays handles frames with a measured
 EM gain

---
 corgidrp/l1_to_l2a.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l1_to_l2a.py b/corgidrp/l1_to_l2a.py
index 2465c79..3151c17 100644
--- a/corgidrp/l1_to_l2a.py
+++ b/corgidrp/l1_to_l2a.py
@@ -230,7 +230,7 @@ def detect_cosmic_rays(input_dataset, detector_params, k_gain = None, sat_thresh
                 emgain = frame.ext_hdr['EMGAIN_A']
             else: # otherwise use commanded EM gain
                 emgain = frame.ext_hdr['EMGAIN_C']
-            emgain_list.append(emgain)
+        emgain_list.append(emgain)
     emgain_arr = np.array(emgain_list)
     fwcpp_e_arr = np.array([detector_params.params['FWC_PP_E'] for frame in crmasked_dataset])
     fwcem_e_arr = np.array([detector_params.params['FWC_EM_E'] for frame in crmasked_dataset])
-- 
2.43.0


From c6113f02b5cc0523807495f93d4ca802bc9af700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 04/88] fix: correct_bad_pixels keeps DQ flags above 128

---
 corgidrp/l2a_to_l2b.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/l2a_to_l2b.py b/corgidrp/l2a_to_l2b.py
index 3b03767..577ee3d 100644
--- a/corgidrp/l2a_to_l2b.py
+++ b/corgidrp/l2a_to_l2b.py
@@ -367,11 +367,11 @@ def correct_bad_pixels(input_dataset, bp_mask):
 
     data = input_dataset.copy()
     data_cube = data.all_data
-    dq_cube = data.all_dq.astype(np.uint8)
+    dq_cube = data.all_dq.copy()
 
     for i in range(data_cube.shape[0]):
         # combine DQ and BP masks
-        bp_dq_mask = np.bitwise_or(dq_cube[i],bp_mask.data.astype(np.uint8))
+        bp_dq_mask = np.bitwise_or(dq_cube[i],bp_mask.data.astype(dq_cube.dtype))
         # mask affected pixels with NaN
         bp = np.where(bp_dq_mask != 0)
         data_cube[i, bp[0], bp[1]] = np.nan
-- 
2.43.0


From d1862099eced3731c9d4b884097b7302f6b9d590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:17 +0000
Subject: [PATCH 05/88] fix: convert_to_electrons keeps the tracked individual
 error terms

---
 corgidrp/l2a_to_l2b.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/corgidrp/l2a_to_l2b.py b/corgidrp/l2a_to_l2b.py
index 577ee3d..9a07d79 100644
--- a/corgidrp/l2a_to_l2b.py
+++ b/corgidrp/l2a_to_l2b.py
@@ -273,15 +273,14 @@ def convert_to_electrons(input_dataset, k_gain):
     kgain = k_gain.value #extract from caldb
     kgainerr = k_gain.error[0]
     # x = c*kgain, where c (counts beforehand) and kgain both have error, so do propogation of error due to the product of 2 independent sources
-    kgain_error = np.zeros_like(input_dataset.all_err)
-    kgain_tot_err = (np.sqrt((kgain*kgain_dataset.all_err[:,0,:,:])**2 + (kgain_cube*kgainerr)**2))
-    kgain_error[:,0,:,:] = kgain_tot_err
+    kgain_dataset.rescale_error(np.full(kgain_cube.shape[1:], kgain), "kgain")
+    kgain_dataset.add_error_term(kgain_cube*kgainerr, "kgain_error")
     kgain_cube *= kgain
     
     history_msg = "data converted to detected EM electrons by kgain {0}".format(str(kgain))
 
     # update the output dataset with this converted data and update the history
-    kgain_dataset.update_after_processing_step(history_msg, new_all_data=kgain_cube, new_all_err=kgain_error, header_entries = {"BUNIT":"detected EM electrons", "KGAINPAR":kgain, 
+    kgain_dataset.update_after_processing_step(history_msg, new_all_data=kgain_cube, header_entries = {"BUNIT":"detected EM electrons", "KGAINPAR":kgain, 
                                                                                     "KGAIN_ER": k_gain.error[0], "RN":k_gain.ext_hdr['RN'], "RN_ERR":k_gain.ext_hdr["RN_ERR"]})
     return kgain_dataset
 
-- 
2.43.0


From e0addb045271791fdb7b7d6ac8e25b35a39ed5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:48 +0000
Subject: [PATCH 06/88] fix: content hashes do not depend on the interpreter's
 hash seed or the byte order

---
 corgidrp/data.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 87b5bca..7c0581b 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -1,5 +1,6 @@
 import os
 import re
+import hashlib
 import warnings
 import re
 import numpy as np
@@ -595,13 +596,13 @@ class Image():
         Returns:
             str: the hash of the data, err, and dq
         """
-        data_bytes = self.data.data.tobytes()
-        err_bytes = self.err.data.tobytes()
-        dq_bytes = self.dq.data.tobytes()
+        total_hash = hashlib.sha256()
+        for array in (self.data, self.err, self.dq):
+            array = np.asarray(array)
+            # the hash should not depend on the byte order of the array (e.g., FITS is big endian)
+            total_hash.update(array.astype(array.dtype.newbyteorder('<')).tobytes())
 
-        total_bytes = data_bytes + err_bytes + dq_bytes
-
-        return str(hash(total_bytes))
+        return total_hash.hexdigest()
 
     def add_extension_hdu(self, name, data = None, header=None):
         """
@@ -1234,7 +1235,7 @@ class DetectorParams(Image):
         for key in self.params:
             hashing_str += str(self.params[key])
 
-        return str(hash(hashing_str))
+        return hashlib.sha256(hashing_str.encode()).hexdigest()
 
 class AstrometricCalibration(Image):
     """
-- 
2.43.0


From 4e48a8651a90df2c8d14d0146dd34de4a94a4dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:48 +0000
Subject: [PATCH 07/88] fix: autoload recognises the DATATYPE of ND sweet-spot
 calibrations, and names the shape it refuses

---
 corgidrp/data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 7c0581b..16d565c 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -2565,7 +2565,8 @@ datatypes = { "Image" : Image,
               "FluxcalFactor" : FluxcalFactor,
               "FpamFsamCal" : FpamFsamCal,
               "CoreThroughputCalibration": CoreThroughputCalibration,
-              "NDFilterSweetSpot": NDFilterSweetSpotDataset}
+              "NDFilterSweetSpot": NDFilterSweetSpotDataset,
+              "NDFilterSweetSpotDataset": NDFilterSweetSpotDataset}
 
 def autoload(filepath):
     """
@@ -2591,7 +2592,7 @@ def autoload(filepath):
                 dtype = "Image"
             else:
                 errmsg = "Could not determine datatype for {0}. Data shape of {1} is not 2-D"
-                raise ValueError(errmsg.format(filepath, dtype))
+                raise ValueError(errmsg.format(filepath, hdulist[1].data.shape))
 
     # if we got here, we have a datatype
     data_class = datatypes[dtype]
-- 
2.43.0


From 2c9b277397d4796d97734ad65e508b68e8b35b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:48 +0000
Subject: [PATCH 08/88] fix: bad pixel maps and flux factors can be built from
 a header that already records the input files

---
 corgidrp/data.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 16d565c..3fbacf8 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -971,13 +971,16 @@ class BadPixelMap(Image):
             self.ext_hdr['DATATYPE'] = 'BadPixelMap'
 
             # log all the data that went into making this bad pixel map
-            self._record_parent_filenames(input_dataset)
+            if input_dataset is not None:
+                self._record_parent_filenames(input_dataset)
 
             # add to history
             self.ext_hdr['HISTORY'] = "Bad Pixel map created"
 
             # check whether we're making the bpmap from a flat only, or from L1/2 files. 
-            if "_FLT_CAL" in input_dataset[-1].filename:
+            if input_dataset is None:
+                self.filename = "BPM_CAL.fits" # input files are already archived in the header; default to something just in case
+            elif "_FLT_CAL" in input_dataset[-1].filename:
                 self.filename = input_dataset[-1].filename.replace("_FLT_CAL", "_BPM_CAL")
             else:
                 self.filename = re.sub('_L[0-9].', '_BPM_CAL', input_dataset[-1].filename)
@@ -1416,13 +1419,17 @@ class FluxcalFactor(Image):
                     raise ValueError("This appears to be a new FluxcalFactor. The dataset of input files needs to be passed \
                                      in to the input_dataset keyword to record history of this FluxcalFactor file.")
                 else:
-                    pass
+                    # input files are already archived in the header; default to something just in case
+                    self.filename = "ABF_CAL.fits"
             else:
                 # log all the data that went into making this calibration file
                 self._record_parent_filenames(input_dataset)
                 # give it a default filename using the first input file as the base
                 # strip off everything starting at .fits
                 orig_input_filename = input_dataset[-1].filename.split(".fits")[0]
+                # slight hack for old mocks not in the stardard filename format
+                self.filename = "{0}_ABF_CAL.fits".format(orig_input_filename)
+                self.filename = re.sub('_L[0-9].', '', self.filename)
   
             self.ext_hdr['DATATYPE'] = 'FluxcalFactor' # corgidrp specific keyword for saving to disk
             # JM: moved the below to fluxcal.py since it varies depending on the method
@@ -1434,11 +1441,7 @@ class FluxcalFactor(Image):
             # Enforce data level = CAL
             self.ext_hdr['DATALVL']    = 'CAL'
 
-            # use the start date for the filename by default
             self.filedir = "."
-            # slight hack for old mocks not in the stardard filename format
-            self.filename = "{0}_ABF_CAL.fits".format(orig_input_filename)
-            self.filename = re.sub('_L[0-9].', '', self.filename)
 
 class FpamFsamCal(Image):
     """
-- 
2.43.0


From 8f7d4e889c149425e7c23997963e1bbafc2121f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:48 +0000
Subject: [PATCH 09/88] fix: DetectorParams and FpamFsamCal built in memory are
 complete images (extension names, err dimensions, own default matrix)

---
 corgidrp/data.py | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 3fbacf8..c0a0829 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -1181,16 +1181,8 @@ class DetectorParams(Image):
                 # to avoid VerifyWarning from fits
                 ext_hdr[key] = value
 
-            self.pri_hdr = pri_hdr
-            self.ext_hdr = ext_hdr
-            self.data = np.zeros([1,1])
-            self.dq = np.zeros([1,1])
-            self.err = np.zeros([1,1])
-
-            self.err_hdr = fits.Header()
-            self.dq_hdr = fits.Header()
-
-            self.hdu_list = fits.HDUList()
+            # the values live in the header, the pixels are just a placeholder
+            super().__init__(np.zeros([1,1]), pri_hdr=pri_hdr, ext_hdr=ext_hdr)
 
         # make a dictionary that's easy to use
         self.params = {}
@@ -1491,7 +1483,7 @@ class FpamFsamCal(Image):
                 raise ValueError('File that was loaded was not a FpamFsamCal file.')
         else:
             if len(data_or_filepath) == 0:
-                data_or_filepath = self.default_trans
+                data_or_filepath = self.default_trans.copy()
             elif not isinstance(data_or_filepath, np.ndarray):
                 raise ValueError('Input should either be an array or a filepath string.')
             if data_or_filepath.shape != (2,2,2):
@@ -1509,16 +1501,7 @@ class FpamFsamCal(Image):
             exthdr['EMGAIN_C'] = 1.0
             exthdr['EXCAMT'] = 40.0
 
-            self.pri_hdr = prihdr
-            self.ext_hdr = exthdr
-            self.data = data_or_filepath
-            self.dq = self.data * 0
-            self.err = self.data * 0
-
-            self.err_hdr = fits.Header()
-            self.dq_hdr = fits.Header()
-
-            self.hdu_list = fits.HDUList()
+            super().__init__(data_or_filepath, pri_hdr=prihdr, ext_hdr=exthdr)
 
         # if this is a new FpamFsamCal file, we need to bookkeep it in the
         # header b/c of logic in the super.__init__, we just need to check this
-- 
2.43.0


From 37f1a5431ece78d01d4c6c87887ee0479a408849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:48 +0000
Subject: [PATCH 10/88] fix: taking a subset of a dataset does not disconnect
 its frames from its data cubes

---
 corgidrp/data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index c0a0829..d9cda6f 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -69,8 +69,9 @@ class Dataset():
             # return a single element of the data
             return self.frames[indices]
         else:
-            # return a subset of the dataset
-            return Dataset(self.frames[indices])
+            # return a subset of the dataset. Use new frame objects (with the same headers), since the frames
+            # of the subset point into the data cube of the subset and the ones here have to keep pointing into ours
+            return Dataset([copy.copy(frame) for frame in self.frames[indices]])
 
     def __len__(self):
         return len(self.frames)
-- 
2.43.0


From a1e7da11c719a3e40c4c8bd10da14c9f6f24bb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 11/88] fix: flag_nans keeps the flags that are already set

---
 corgidrp/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/detector.py b/corgidrp/detector.py
index 77b3c0d..02a74e9 100644
--- a/corgidrp/detector.py
+++ b/corgidrp/detector.py
@@ -608,6 +608,6 @@ def flag_nans(dataset,flag_val=1):
 
     # mask bad pixels
     bad = np.isnan(dataset_out.all_data)
-    dataset_out.all_dq[bad] = flag_val
+    dataset_out.all_dq[bad] |= flag_val
 
     return dataset_out
-- 
2.43.0


From 1e58c90dba2281cd4e3736b7b23eea8c33ed2495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 12/88] fix: find_plateaus does not report a second plateau
 right after the end of each one

---
 corgidrp/detector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/corgidrp/detector.py b/corgidrp/detector.py
index 02a74e9..83bcf01 100644
--- a/corgidrp/detector.py
+++ b/corgidrp/detector.py
@@ -539,6 +539,9 @@ def find_plateaus(streak_row, fwc, sat_thresh, plat_thresh, cosm_filter):
         i_begs = np.array([])
         for i in range(len(saturated)):
             i_beg = saturated[i]
+            # the filter window reaches beyond the plateau, so this pixel may not be part of one
+            if streak_row[i_beg] < plat_thresh*fwc:
+                continue
             while i_beg > 0 and streak_row[i_beg] >= plat_thresh*fwc:
                 i_beg -= 1
             # unless saturated at col 0, shifts forward 1 to plateau start
-- 
2.43.0


From 17318d8f4147600632a22abee8381aa0d5f493a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 13/88] fix: divide_by_exptime keeps the frames connected to
 the data cube of the dataset

---
 corgidrp/l2b_to_l3.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/corgidrp/l2b_to_l3.py b/corgidrp/l2b_to_l3.py
index e982997..a0731a0 100644
--- a/corgidrp/l2b_to_l3.py
+++ b/corgidrp/l2b_to_l3.py
@@ -89,7 +89,6 @@ def divide_by_exptime(input_dataset):
     for i in range(len(data.frames)):
         exposure_time = float(data.frames[i].ext_hdr['EXPTIME'])
 
-        data.frames[i].data = data.frames[i].data / exposure_time
         # data.frames[i].err = data.frames[i].err / exposure_time
         scale_factor = (1/exposure_time) * np.ones([data.frames[i].err.shape[1], data.frames[i].err.shape[2]])
         # print(data.frames[i].err.shape)
@@ -98,7 +97,7 @@ def divide_by_exptime(input_dataset):
         #data.frames[i].rescale_error(data.frames[i].err, 'normalized by the exposure time')
         data.frames[i].rescale_error(scale_factor, 'normalized by the exposure time')
 
-        all_data_new[i] = data.frames[i].data
+        all_data_new[i] = data.frames[i].data / exposure_time
         all_err_new[i] = data.frames[i].err
 
         data.frames[i].ext_hdr.set('BUNIT', 'photoelectrons/s')
-- 
2.43.0


From 53e0521369a7aa5c50cd389ec21584075f562c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 14/88] fix: crop centers every frame on its own star position

---
 corgidrp/l3_to_l4.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 0305bb4..78dc076 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -302,8 +302,11 @@ def crop(input_dataset, sizexy=None, centerxy=None):
        
     # Need to loop over frames and reinit dataset because array sizes change
     frames_out = []
+    input_sizexy, input_centerxy = sizexy, centerxy
 
     for frame in dataset:
+        # start from the requested values for every frame, since the defaults depend on its header
+        sizexy, centerxy = input_sizexy, input_centerxy
         prihdr = frame.pri_hdr
         exthdr = frame.ext_hdr
         dqhdr = frame.dq_hdr
@@ -390,13 +393,11 @@ def crop(input_dataset, sizexy=None, centerxy=None):
 
         new_frame = data.Image(cropped_frame_data,prihdr,exthdr,cropped_frame_err,cropped_frame_dq,frame.err_hdr,frame.dq_hdr)
         new_frame.filename = frame.filename
+        exthdr['HISTORY'] = f"""Frame cropped to new shape {list(cropped_frame_data.shape)} on center {list(centerxy)}. Updated header kws: {", ".join(updated_hdrs)}."""
         frames_out.append(new_frame)
 
     output_dataset = data.Dataset(frames_out)
 
-    history_msg1 = f"""Frames cropped to new shape {list(output_dataset[0].data.shape)} on center {list(centerxy)}. Updated header kws: {", ".join(updated_hdrs)}."""
-    output_dataset.update_after_processing_step(history_msg1)
-    
     return output_dataset
 
 def do_psf_subtraction(input_dataset, 
-- 
2.43.0


From 8c4011f3f56751f7d7a6ded32be72d6d88ab7d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 15/88] fix: crop keeps the extra extensions and the directory
 of the frames

---
 corgidrp/l3_to_l4.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 78dc076..6a72f03 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -391,8 +391,9 @@ def crop(input_dataset, sizexy=None, centerxy=None):
         exthdr.set('DETPIX0X',exthdr["DETPIX0X"]+x1)
         exthdr.set('DETPIX0Y',exthdr["DETPIX0Y"]+y1)
 
-        new_frame = data.Image(cropped_frame_data,prihdr,exthdr,cropped_frame_err,cropped_frame_dq,frame.err_hdr,frame.dq_hdr)
+        new_frame = data.Image(cropped_frame_data,prihdr,exthdr,cropped_frame_err,cropped_frame_dq,frame.err_hdr,frame.dq_hdr,input_hdulist=frame.hdu_list)
         new_frame.filename = frame.filename
+        new_frame.filedir = frame.filedir
         exthdr['HISTORY'] = f"""Frame cropped to new shape {list(cropped_frame_data.shape)} on center {list(centerxy)}. Updated header kws: {", ".join(updated_hdrs)}."""
         frames_out.append(new_frame)
 
-- 
2.43.0


From 94e2f015d9be3ce2140f6c3bc16a6c0cc74373b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 16/88] fix: crop updates the WCS reference pixel in the
 extension header

---
 corgidrp/l3_to_l4.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 6a72f03..42d398a 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -385,6 +385,10 @@ def crop(input_dataset, sizexy=None, centerxy=None):
             prihdr["CRPIX1"] -= x1
             prihdr["CRPIX2"] -= y1
             updated_hdrs.append('CRPIX1/2')
+        if ("CRPIX1" in exthdr.keys()): # where create_wcs writes it
+            exthdr["CRPIX1"] -= x1
+            exthdr["CRPIX2"] -= y1
+            updated_hdrs.append('CRPIX1/2')
         if not ("DETPIX0X" in exthdr.keys()):
             exthdr.set('DETPIX0X',0)
             exthdr.set('DETPIX0Y',0)
-- 
2.43.0


From 553b44b453b2dd35c0abdff7a76a329daec45e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 17/88] fix: northup keeps the tracked individual error terms

---
 corgidrp/l3_to_l4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 42d398a..afc0fa3 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -718,7 +718,7 @@ def northup(input_dataset,use_wcs=True,rot_center='im_center'):
 
         ## HDU ERR ##
         err_data = processed_data.err
-        err_derot = np.expand_dims(rotate(err_data[0],roll_angle,(xcen,ycen)), axis=0) # err data shape is 1x1024x1024
+        err_derot = np.array([rotate(err_layer,roll_angle,(xcen,ycen)) for err_layer in err_data]) # err data shape is 1x1024x1024 (more layers if individual errors are tracked)
         new_all_err.append(err_derot)
         #############
 
-- 
2.43.0


From 90cc2bf73fe0673be05f2144b94ab347ac02dbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 18/88] fix: split_dataset keeps frames with undefined values
 and the types of the values

---
 corgidrp/data.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index d9cda6f..79a38aa 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -231,18 +231,22 @@ class Dataset():
                 col_names.append(key)
                 col_vals.append(dataset_vals)
 
-        all_data = np.array(col_vals).T
-
-        # track all combinations
-        df = pd.DataFrame(data=all_data, columns=col_names)
-
-        grouped = df.groupby(col_names)
-
-        unique_vals = list(grouped.indices.keys()) # each unique set of values
+        # track all combinations. Compare the header values themselves, so that values of different types
+        # stay different and frames with an undefined value are not lost
+        grouped_indices = {}
+        for i, combo in enumerate(zip(*col_vals)):
+            if len(col_names) == 1:
+                combo = combo[0]
+            grouped_indices.setdefault(combo, []).append(i)
+
+        unique_vals = list(grouped_indices.keys()) # each unique set of values
+        try:
+            unique_vals = sorted(unique_vals)
+        except TypeError:
+            pass # values of different types have no order. Keep the order of the frames
         split_datasets = []
-        for combo in grouped.indices:
-            dataset_indices = grouped.indices[combo]
-            sub_dataset = self[dataset_indices]
+        for combo in unique_vals:
+            sub_dataset = self[grouped_indices[combo]]
             split_datasets.append(sub_dataset)
 
         return split_datasets, unique_vals
-- 
2.43.0


From 5cd6c65ff49feec0c25e56a71d3c2aef18d5440e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 19/88] fix: the list of input files is in the order of the
 inputs and has no left-over entries

---
 corgidrp/data.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 79a38aa..1d5ef58 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -482,15 +482,18 @@ class Image():
             input_dataset (corgidrp.data.Dataset): the input dataset that were combined together to make this image
         """
 
-        parent_filenames = set()
+        parent_filenames = {} # dictionary to keep the order of the files
         # go through filenames and also check each frames parents
         for img in input_dataset:
-            parent_filenames.add(img.filename)
+            parent_filenames[img.filename] = True
             # also check if this frame has parent frames. keep trakc of them too
             if 'DRPNFILE' in img.ext_hdr:
                 for j in range(img.ext_hdr['DRPNFILE']):
-                    parent_filenames.add(img.ext_hdr['FILE{0}'.format(j)])
+                    parent_filenames[img.ext_hdr['FILE{0}'.format(j)]] = True
         
+        # this header may come from a frame that has a longer list of parents
+        for j in range(len(parent_filenames), self.ext_hdr.get('DRPNFILE', 0)):
+            self.ext_hdr.remove('FILE{0}'.format(j), ignore_missing=True)
         for i, filename in enumerate(parent_filenames):
             self.ext_hdr.set('FILE{0}'.format(i), filename, "File #{0} filename used to create this frame".format(i))
         self.ext_hdr.set('DRPNFILE', len(parent_filenames), "# of files used to create this processed frame")
-- 
2.43.0


From 189be454408e8db932a360b62258d68208fc89d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 20/88] fix: photon-counted darks list only the frames that
 were used

---
 corgidrp/photon_counting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/photon_counting.py b/corgidrp/photon_counting.py
index 5f8978e..49eda56 100644
--- a/corgidrp/photon_counting.py
+++ b/corgidrp/photon_counting.py
@@ -147,7 +147,7 @@ def get_pc_mean(input_dataset, pc_master_dark=None, T_factor=None, pc_ecount_max
     list_new_image = []
     list_err = [] # only used for dark processing case
     list_dq = [] # only used for dark processing case
-    index_of_last_frame_used = num_bins*(len(input_dataset)//num_bins)
+    index_of_last_frame_used = num_bins*bin_size
     # this for loop ignores the remainder from the division above
     for i in range(num_bins):
         subset_frames = input_dataset.frames[bin_size*i:bin_size*(i+1)]
-- 
2.43.0


From 6dc9be61f38d9f4eb0b79996b06bfdbbc751e317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 21/88] fix: get_pc_mean does not disconnect the frames of the
 input dataset from its data cubes

---
 corgidrp/photon_counting.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/corgidrp/photon_counting.py b/corgidrp/photon_counting.py
index 49eda56..3010929 100644
--- a/corgidrp/photon_counting.py
+++ b/corgidrp/photon_counting.py
@@ -150,8 +150,7 @@ def get_pc_mean(input_dataset, pc_master_dark=None, T_factor=None, pc_ecount_max
     index_of_last_frame_used = num_bins*bin_size
     # this for loop ignores the remainder from the division above
     for i in range(num_bins):
-        subset_frames = input_dataset.frames[bin_size*i:bin_size*(i+1)]
-        sub_dataset = data.Dataset(subset_frames)
+        sub_dataset = input_dataset[bin_size*i:bin_size*(i+1)]
 
         test_dataset, _ = sub_dataset.copy().split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR', 'RN'])
         if len(test_dataset) > 1:
-- 
2.43.0


From 027d5d054da39a3ca64dbf578a0874d8b2009a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 22/88] fix: build_trad_dark does not modify the headers of the
 first input frame

---
 corgidrp/darks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/darks.py b/corgidrp/darks.py
index eb1b9aa..2cb19b5 100644
--- a/corgidrp/darks.py
+++ b/corgidrp/darks.py
@@ -245,9 +245,9 @@ def build_trad_dark(dataset, detector_params, detector_regions=None, full_frame=
         data = mean_frame
 
     # get from one of the noise maps and modify as needed
-    prihdr = dataset.frames[0].pri_hdr
-    exthdr = dataset.frames[0].ext_hdr
-    errhdr = dataset.frames[0].err_hdr
+    prihdr = dataset.frames[0].pri_hdr.copy()
+    exthdr = dataset.frames[0].ext_hdr.copy()
+    errhdr = dataset.frames[0].err_hdr.copy()
     exthdr['NAXIS1'] = data.shape[1]
     exthdr['NAXIS2'] = data.shape[0]
     exthdr['DATATYPE'] = 'Dark'
-- 
2.43.0


From 115391422d848ee851df30e1fd0cea0d1aec8a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 23/88] fix: darks and noise maps made from combined frames
 list all their input files

---
 corgidrp/darks.py           | 2 ++
 corgidrp/data.py            | 6 ++++--
 corgidrp/photon_counting.py | 1 +
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/corgidrp/darks.py b/corgidrp/darks.py
index 2cb19b5..46694f7 100644
--- a/corgidrp/darks.py
+++ b/corgidrp/darks.py
@@ -251,6 +251,7 @@ def build_trad_dark(dataset, detector_params, detector_regions=None, full_frame=
     exthdr['NAXIS1'] = data.shape[1]
     exthdr['NAXIS2'] = data.shape[0]
     exthdr['DATATYPE'] = 'Dark'
+    exthdr.remove('DRPNFILE', ignore_missing=True) # the inputs of the first frame only
 
     master_dark = Dark(data, prihdr, exthdr, dataset, err, dq, errhdr)
     master_dark.ext_hdr['BUNIT'] = 'Detected Electrons'
@@ -734,6 +735,7 @@ def calibrate_darks_lsq(dataset, detector_params, detector_regions=None):
     err_hdr['BUNIT'] = 'Detected Electrons'
 
     exthdr['DATATYPE'] = 'DetectorNoiseMaps'
+    exthdr.remove('DRPNFILE', ignore_missing=True) # the inputs of the first frame only
 
     # bias offset
     exthdr['B_O'] = bias_offset
diff --git a/corgidrp/data.py b/corgidrp/data.py
index 1d5ef58..89a08f5 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -492,8 +492,10 @@ class Image():
                     parent_filenames[img.ext_hdr['FILE{0}'.format(j)]] = True
         
         # this header may come from a frame that has a longer list of parents
-        for j in range(len(parent_filenames), self.ext_hdr.get('DRPNFILE', 0)):
-            self.ext_hdr.remove('FILE{0}'.format(j), ignore_missing=True)
+        j = len(parent_filenames)
+        while 'FILE{0}'.format(j) in self.ext_hdr:
+            del self.ext_hdr['FILE{0}'.format(j)]
+            j += 1
         for i, filename in enumerate(parent_filenames):
             self.ext_hdr.set('FILE{0}'.format(i), filename, "File #{0} filename used to create this frame".format(i))
         self.ext_hdr.set('DRPNFILE', len(parent_filenames), "# of files used to create this processed frame")
diff --git a/corgidrp/photon_counting.py b/corgidrp/photon_counting.py
index 3010929..db063da 100644
--- a/corgidrp/photon_counting.py
+++ b/corgidrp/photon_counting.py
@@ -325,6 +325,7 @@ def get_pc_mean(input_dataset, pc_master_dark=None, T_factor=None, pc_ecount_max
         return pc_ill_dataset
     else:
         ext_hdr['PC_STAT'] = 'photon-counted master dark'
+        ext_hdr.remove('DRPNFILE', ignore_missing=True) # the inputs of the last frame only
         ext_hdr['NAXIS1'] = combined_pc_mean.shape[0]
         ext_hdr['NAXIS2'] = combined_pc_mean.shape[1]
         ext_hdr['PCTHRESH'] = thresh
-- 
2.43.0


From 29409b81340b3b2c008d8ab2ea0f07b4dcc14d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 24/88] fix: autogen_recipe does not modify the template it is
 given

---
 corgidrp/walker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index 4204983..82e9143 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -1,4 +1,5 @@
 import os
+import copy
 import json
 import astropy.time as time
 import warnings
@@ -148,7 +149,7 @@ def autogen_recipe(filelist, outputdir, template=None):
     recipe_list = []
     for template in recipe_template_list:
         # create the personalized recipe
-        recipe = template.copy()
+        recipe = copy.deepcopy(template) # the template is not modified
         recipe["template"] = False
 
         for filename in filelist:
-- 
2.43.0


From 9b0ddb007834da2f95c94301fc42cbe09ab88c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 25/88] fix: recipes with an undefined calibration can be run
 with just-in-time calibrations

---
 corgidrp/walker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index 82e9143..050b5e5 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -203,6 +203,9 @@ def _fill_in_calib_files(step, this_caldb, ref_frame):
     for calib in step["calibs"]:
         # order matters, so only one calibration file per dictionary
 
+        if step["calibs"][calib] is None:
+            continue # it was already decided that this step runs without this calibration
+
         if "AUTOMATIC" in step["calibs"][calib].upper():
             calib_dtype = data.datatypes[calib]
 
-- 
2.43.0


From 5386b1a5043ed42627ee6235fd289a4a41c7c34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 26/88] fix: steps without a just-in-time calibration are
 skipped if skip_missing_cal_steps is set

---
 corgidrp/walker.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index 050b5e5..b9e1d9a 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -425,6 +425,10 @@ def run_recipe(recipe, save_recipe_file=True):
                     for frame in list_of_frames:
                         frame.ext_hdr["RECIPE"] = json.dumps(recipe)
 
+                    # this step may have to be skipped because it has no calibration
+                    if "skip" in step and step["skip"]:
+                        continue
+
 
                 # load the calibration files in from disk
                 for calib in step["calibs"]:
-- 
2.43.0


From 06244310c42584b4515a563977f4ec09bce0e7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 27/88] fix: sort_pupilimg_frames handles more than one k-gain
 exposure time sequence

---
 corgidrp/sorting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/sorting.py b/corgidrp/sorting.py
index e3fea75..8055848 100644
--- a/corgidrp/sorting.py
+++ b/corgidrp/sorting.py
@@ -151,7 +151,7 @@ def sort_pupilimg_frames(
             len(exptime_cons2) == len(set(exptime_cons2))):
             kgain_subset += [idx_cons2[0], idx_count+1]
             idx_cons2 = [idx_count+1]
-            exptime_cons2 = [exptime_cons]
+            exptime_cons2 = [exptime_cons[idx_count+1]]
         else:
         # It is not a subset for kgain
            continue
-- 
2.43.0


From 4784edc73a6f2835a0e3218e72381d844f4c87a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 28/88] fix: pipeline settings of a recipe apply to that recipe
 only

---
 corgidrp/walker.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index b9e1d9a..4812c46 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -361,11 +361,28 @@ def run_recipe(recipe, save_recipe_file=True):
         # need to load in
         recipe = json.load(open(recipe, "r"))
 
-    # configure pipeline as needed
+    # configure pipeline as needed, for this recipe only
+    old_settings = {}
     for setting in recipe['drpconfig']:
         # equivalent to corgidrp.setting = recipe['drpconfig'][setting]
+        old_settings[setting] = getattr(corgidrp, setting, None)
         setattr(corgidrp, setting, recipe['drpconfig'][setting])
 
+    try:
+        _run_recipe_steps(recipe, save_recipe_file)
+    finally:
+        for setting in old_settings:
+            setattr(corgidrp, setting, old_settings[setting])
+
+
+def _run_recipe_steps(recipe, save_recipe_file):
+    """
+    Run the steps of a recipe, with the pipeline already configured for it
+
+    Args:
+        recipe (dict): the already loaded in recipe
+        save_recipe_file (bool): saves the recipe as a JSON file in the outputdir
+    """
     # read in data, if not doing bp map
     if recipe["inputs"]:
         filelist = recipe["inputs"]
-- 
2.43.0


From 9222f294fdeca7fcf4ef5ecb445fbffc40bceb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 29/88] fix: scanning a directory skips FITS files that are not
 corgidrp products

---
 corgidrp/caldb.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/corgidrp/caldb.py b/corgidrp/caldb.py
index f8e4426..202ee47 100644
--- a/corgidrp/caldb.py
+++ b/corgidrp/caldb.py
@@ -2,6 +2,7 @@
 Calibration tracking system. Modified from kpicdrp caldb implmentation (Copyright (c) 2024, KPIC Team)
 """
 import os
+import warnings
 import numpy as np
 import pandas as pd
 import corgidrp
@@ -345,7 +346,12 @@ class CalDB:
                     continue
 
                 filepath = os.path.join(dirpath, filename)
-                frame = data.autoload(filepath)
+                try:
+                    frame = data.autoload(filepath)
+                except Exception as e:
+                    # not a file that this pipeline made
+                    warnings.warn("Skipping {0} because it could not be loaded: {1}".format(filepath, e))
+                    continue
 
                 # check what class it has been loaded as. only save frames that fall into calibration classes
                 if frame.__class__ in labels:
-- 
2.43.0


From 54c66352ff7d75cc997d19d95cf29f67b949f18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 30/88] fix: an interrupted save does not lose the calibration
 database

---
 corgidrp/caldb.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/corgidrp/caldb.py b/corgidrp/caldb.py
index 202ee47..db6fab8 100644
--- a/corgidrp/caldb.py
+++ b/corgidrp/caldb.py
@@ -92,7 +92,10 @@ class CalDB:
         """
         Save file without numbered index to disk with user specified filepath as a CSV file
         """
-        self._db.to_csv(self.filepath, index=False)
+        # replace the old file in one go, so that it is never lost or incomplete
+        temp_filepath = "{0}.tmp{1}".format(self.filepath, os.getpid())
+        self._db.to_csv(temp_filepath, index=False)
+        os.replace(temp_filepath, self.filepath)
 
     def _get_values_from_entry(self, entry, is_calib=True):
         """
-- 
2.43.0


From 7feec8c035ee0438689f4c3144dfcecef6e0b0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 31/88] fix: default calibrations are complete and registered
 even if start-up was interrupted before

---
 corgidrp/caldb.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/corgidrp/caldb.py b/corgidrp/caldb.py
index db6fab8..b98dbb5 100644
--- a/corgidrp/caldb.py
+++ b/corgidrp/caldb.py
@@ -371,6 +371,18 @@ class CalDB:
 
 
 
+def _save_default_calib(calib, filepath):
+    """
+    Saves a default calibration, such that the file is only there when it is complete
+
+    Args:
+        calib (corgidrp.data.Image subclass): default calibration
+        filepath (str): where to save it
+    """
+    temp_filepath = "{0}.tmp{1}".format(filepath, os.getpid())
+    calib.save(filedir=os.path.dirname(temp_filepath), filename=os.path.basename(temp_filepath))
+    os.replace(temp_filepath, filepath)
+
 def initialize():
     """
     Creates default calibrations and caldb if it doesn't exist
@@ -380,21 +392,28 @@ def initialize():
 
     ### Create set of default calibrations
     rescan_needed = False
+    detparams_filepath = os.path.join(corgidrp.default_cal_dir, "DetectorParams_2023-11-01T00:00:00.000.fits")
+    fpamfsam_filepath = os.path.join(corgidrp.default_cal_dir, "FpamFsamCal_2024-02-10T00:00:00.000.fits")
     # Add default detector_params calibration file if it doesn't exist
-    if not os.path.exists(os.path.join(corgidrp.default_cal_dir, "DetectorParams_2023-11-01T00:00:00.000.fits")):
+    if not os.path.exists(detparams_filepath):
         default_detparams = data.DetectorParams({}, date_valid=time.Time("2023-11-01 00:00:00", scale='utc'))
-        default_detparams.save(filedir=corgidrp.default_cal_dir)
+        _save_default_calib(default_detparams, detparams_filepath)
         rescan_needed = True
     # Add default FpamFsamCal calibration file if it doesn't exist
-    if not os.path.exists(os.path.join(corgidrp.default_cal_dir, "FpamFsamCal_2024-02-10T00:00:00.000.fits")):
+    if not os.path.exists(fpamfsam_filepath):
         fpamfsam_2excam = data.FpamFsamCal([],
             date_valid=time.Time("2024-02-10 00:00:00", scale='utc'))
-        fpamfsam_2excam.save(filedir=corgidrp.default_cal_dir)
+        _save_default_calib(fpamfsam_2excam, fpamfsam_filepath)
         rescan_needed = True
 
+    default_caldb = CalDB()
+    # the files may have been made without being added to the caldb (if this was interrupted)
+    for filepath in [detparams_filepath, fpamfsam_filepath]:
+        if os.path.abspath(filepath) not in default_caldb._db["Filepath"].values:
+            rescan_needed = True
+
     if rescan_needed:
         # add default caldb entries
-        default_caldb = CalDB()
         default_caldb.scan_dir_for_new_entries(corgidrp.default_cal_dir)
 
     # set initialization
-- 
2.43.0


From 593be6d0dfed44d2f34ee4d6b122739606ead659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 32/88] fix: an interrupted start-up does not lose the
 configuration

---
 corgidrp/__init__.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/corgidrp/__init__.py b/corgidrp/__init__.py
index 05c68ad..8e2458f 100644
--- a/corgidrp/__init__.py
+++ b/corgidrp/__init__.py
@@ -14,11 +14,13 @@ def create_config_dir():
     global config_folder
     homedir = pathlib.Path.home()
     config_folder = os.path.join(homedir, ".corgidrp")
-    # replace legacy file with folder if needed
+    # replace legacy file with folder if needed. The legacy file is kept until its settings are in the new one
+    legacy_filepath = config_folder + ".legacy"
     if os.path.isfile(config_folder):
+        os.replace(config_folder, legacy_filepath)
+    if os.path.isfile(legacy_filepath):
         oldconfig = configparser.ConfigParser()
-        oldconfig.read(config_folder)
-        os.remove(config_folder)
+        oldconfig.read(legacy_filepath)
     else:
         oldconfig = None
 
@@ -47,11 +49,16 @@ def create_config_dir():
         if oldconfig is not None:
             config["PATH"]["caldb"] = oldconfig["PATH"]["caldb"]
 
-        with open(config_filepath, 'w') as f:
+        temp_filepath = "{0}.tmp{1}".format(config_filepath, os.getpid())
+        with open(temp_filepath, 'w') as f:
             config.write(f)
+        os.replace(temp_filepath, config_filepath)
 
         print("corgidrp: Configuration file written to {0}. Please edit if you want things stored in different locations.".format(config_filepath))
 
+    if oldconfig is not None:
+        os.remove(legacy_filepath)
+
 
 def update_pipeline_settings():
     """
-- 
2.43.0


From 56a11468bf0c4dd54a6aa347430b120ba962b12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 33/88] fix: create_onsky_flatfield does not modify the input
 dataset, and the flat has a 3-D error

---
 corgidrp/flat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/corgidrp/flat.py b/corgidrp/flat.py
index 4cf5dbd..bf0a027 100644
--- a/corgidrp/flat.py
+++ b/corgidrp/flat.py
@@ -229,9 +229,9 @@ def create_onsky_flatfield(dataset, planet=None,band=None,up_radius=55,im_size=N
 
     smooth_images=[]; raster_images_cent=[]; cent=[]; act_cents=[]; frames=[];
     for j in range(len(dataset)):
-        planet_image=dataset[j].data
-        prihdr=dataset[j].pri_hdr
-        exthdr=dataset[j].ext_hdr
+        planet_image=dataset[j].data.copy()
+        prihdr=dataset[j].pri_hdr.copy()
+        exthdr=dataset[j].ext_hdr.copy()
         image_size=np.shape(planet_image)
         centroid = centr.centroid_com(planet_image)
         centroid[np.isnan(centroid)]=0
@@ -256,6 +256,6 @@ def create_onsky_flatfield(dataset, planet=None,band=None,up_radius=55,im_size=N
     raster_com=combine_flatfield_rasters(resi_images,planet=planet,band=band,cent=cent, im_size=im_size, rad_mask=rad_mask,planet_rad=planet_rad,n_pix=n_pix, n_pad=n_pad)
     onskyflat=raster_com[0]
     onsky_flatfield = data.FlatField(onskyflat, pri_hdr=prihdr, ext_hdr=exthdr, input_dataset=dataset)
-    onsky_flatfield.err=raster_com[1]
+    onsky_flatfield.err=raster_com[1][np.newaxis]
     
     return(onsky_flatfield)
-- 
2.43.0


From 5038eb2beb0364508d79367ee1b64f28dbe3cd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 34/88] fix: flux calibration does not modify its input images

---
 corgidrp/fluxcal.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/corgidrp/fluxcal.py b/corgidrp/fluxcal.py
index 8eaea3e..2c8ea6f 100644
--- a/corgidrp/fluxcal.py
+++ b/corgidrp/fluxcal.py
@@ -448,11 +448,12 @@ def calibrate_fluxcal_aper(dataset_or_image, flux_or_irr = 'flux', phot_kwargs=N
         FluxcalFactor (corgidrp.data.FluxcalFactor): A calibration object containing the computed 
             flux calibration factor in (TO DO: what units should this be in)
     """
+    # work on a copy, the input headers should not change
     if isinstance(dataset_or_image, corgidrp.data.Dataset):
-        image = dataset_or_image[0]
+        image = dataset_or_image[0].copy()
         dataset = dataset_or_image
     else:
-        image = dataset_or_image
+        image = dataset_or_image.copy()
         dataset = corgidrp.data.Dataset([image])
     
     if phot_kwargs is None:
@@ -551,11 +552,12 @@ def calibrate_fluxcal_gauss2d(dataset_or_image, flux_or_irr = 'flux', phot_kwarg
         FluxcalFactor (corgidrp.data.FluxcalFactor): A calibration object containing the computed 
             flux calibration factor in (TO DO: what units should this be in)
     """
+    # work on a copy, the input headers should not change
     if isinstance(dataset_or_image, corgidrp.data.Dataset):
-        image = dataset_or_image[0]
+        image = dataset_or_image[0].copy()
         dataset = dataset_or_image
     else:
-        image = dataset_or_image
+        image = dataset_or_image.copy()
         dataset = corgidrp.data.Dataset([image])
     
     if phot_kwargs is None:
-- 
2.43.0


From f68fbb80603271fc82988fd664e7f6dc248220b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 35/88] fix: create_nd_sweet_spot_dataset does not modify the
 headers of the last input frame

---
 corgidrp/nd_filter_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/nd_filter_calibration.py b/corgidrp/nd_filter_calibration.py
index 0a97c93..0fbf55e 100644
--- a/corgidrp/nd_filter_calibration.py
+++ b/corgidrp/nd_filter_calibration.py
@@ -329,8 +329,8 @@ def create_nd_sweet_spot_dataset(aggregated_sweet_spot_data, common_metadata, od
     final_sweet_spot_data = aggregated_sweet_spot_data.copy()
 
     # Build the NDFilterSweetSpotDataset, use info from last/ most recent
-    pri_hdr = input_dataset[-1].pri_hdr
-    ext_hdr = input_dataset[-1].ext_hdr
+    pri_hdr = input_dataset[-1].pri_hdr.copy()
+    ext_hdr = input_dataset[-1].ext_hdr.copy()
 
     # keeping the common metadata because if you do provide dim stars as part of the dataset
     # and grab the last header you might get the FPAM info of a frame with no ND filter in.
-- 
2.43.0


From 1ecb3fb75937976666fc868a2e1ebd9644231fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 36/88] fix: create_nd_filter_cal accepts a flux factor instead
 of dim star frames

---
 corgidrp/nd_filter_calibration.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/corgidrp/nd_filter_calibration.py b/corgidrp/nd_filter_calibration.py
index 0fbf55e..9c806b6 100644
--- a/corgidrp/nd_filter_calibration.py
+++ b/corgidrp/nd_filter_calibration.py
@@ -452,8 +452,6 @@ def create_nd_filter_cal(stars_dataset,
             dim_stars_dataset.extend(records)
 
     bright_stars_dataset = Dataset(bright_stars_dataset)
-    dim_stars_dataset = Dataset(dim_stars_dataset)
-
 
     # 2. If a fluxcal factor was provided, use that for the dim stars
     if fluxcal_factor is not None:
@@ -461,6 +459,7 @@ def create_nd_filter_cal(stars_dataset,
     else:
         # Otherwise, compute the average calibration factor from dim
         # star frames
+        dim_stars_dataset = Dataset(dim_stars_dataset)
         cal_factor = compute_avg_calibration_factor(dim_stars_dataset,
                                                     phot_method,
                                                     flux_or_irr,
-- 
2.43.0


From 34ef4407359776685dfd4488cee4a853e4fbfe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 37/88] fix: ODFLAG is set if the OD variation is high for any
 of the bright stars

---
 corgidrp/nd_filter_calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/nd_filter_calibration.py b/corgidrp/nd_filter_calibration.py
index 9c806b6..cd2ee10 100644
--- a/corgidrp/nd_filter_calibration.py
+++ b/corgidrp/nd_filter_calibration.py
@@ -468,6 +468,7 @@ def create_nd_filter_cal(stars_dataset,
     # 3. Process bright star frames
     grouped_files = group_by_keyword(bright_stars_dataset, prihdr_keyword='TARGET', exthdr_keyword=None)
     flux_results = {}
+    od_var_flag = False
     aggregated_data_list = []
     common_metadata = {}
 
@@ -480,7 +481,7 @@ def create_nd_filter_cal(stars_dataset,
                                           phot_kwargs)
         flux_results[target] = star_data
 
-        od_var_flag = star_data['flag']
+        od_var_flag = od_var_flag or star_data['flag']
 
         # Convert to Nx3 array [OD, x, y]
         target_sweet_spot = np.column_stack((
-- 
2.43.0


From a894c7d8f0eedb4ba0727d0db4a90dfd8ed4d3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 38/88] fix: InterpolateCT assigns measured values to the right
 target position

---
 corgidrp/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 89a08f5..cd2c491 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -1831,7 +1831,7 @@ class CoreThroughputCalibration(Image):
             for idx_x in idx_x_arr:
                 # If and only if the same index is in both, it's the same location
                 if idx_x in idx_y_arr:
-                    interpolated_values[idx_x] = core_throughput[idx_x]
+                    interpolated_values[idx] = core_throughput[idx_x]
             
         # Raise ValueError if all CT are NaN
         if np.all(np.isnan(interpolated_values)):
-- 
2.43.0


From 348e808cf8dbaa11d5b7e5cbe3a590f0a2c2b142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 39/88] fix: find_source ends if the S/N of a source is equal
 to the threshold

---
 corgidrp/l4_to_tda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index 913e9f5..b9282d0 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -471,7 +471,7 @@ def find_source(input_image, psf=None, fwhm=2.8, nsigma_threshold=5.0,
     sn_source, xy_source = [], []
        
     # Iteratively detect sources above the SNR threshold
-    while np.nanmax(image_snmap) >= nsigma_threshold:
+    while np.nanmax(image_snmap) > nsigma_threshold:
 
         sn = np.nanmax(image_snmap)
         xy = np.unravel_index(np.nanargmax(image_snmap), image_snmap.shape)
-- 
2.43.0


From 47de2d9265b0f7b69a14adfa616e630eab28cec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 40/88] fix: find_star options do not become the defaults of
 later calls

---
 corgidrp/l3_to_l4.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index afc0fa3..7364fc6 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -12,6 +12,7 @@ from corgidrp.klip_fm import meas_klip_thrupt
 from corgidrp.corethroughput import get_1d_ct
 from scipy.ndimage import rotate as rotate_scipy # to avoid duplicated name
 from scipy.ndimage import shift
+import copy
 import warnings
 import numpy as np
 import pyklip.rdi
@@ -236,7 +237,8 @@ def find_star(input_dataset,
     if star_coordinate_guess is None:
         star_coordinate_guess = (img_sat_spot.shape[1] // 2, img_sat_spot.shape[0] // 2)
 
-    tuningParamDict = satellite_spot_parameters_defaults[observing_mode]
+    # the default parameters should not change
+    tuningParamDict = copy.deepcopy(satellite_spot_parameters_defaults[observing_mode])
     # See if the satellite spot parameters are provided, if not used defaults
     if satellite_spot_parameters is not None:
         tuningParamDict = star_center.update_parameters(tuningParamDict, satellite_spot_parameters)
-- 
2.43.0


From 12e5e0ad59f439d33364671e3b10d6d2295047bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 41/88] fix: compute_flux_ratio_noise uses the default
 separations of each frame

---
 corgidrp/l4_to_tda.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index b9282d0..14db59e 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -207,7 +207,10 @@ def compute_flux_ratio_noise(input_dataset, NDcalibration, unocculted_star_datas
     output_dataset = input_dataset.copy()
     if len(input_dataset) != len(unocculted_star_dataset):
         raise ValueError('The number of frames in input_dataset and unocculted_star_dataset must be the same.')
+    input_separations, input_halfwidth = requested_separations, halfwidth
     for i, frame in enumerate(output_dataset.frames):
+        # the default values are different for each frame
+        requested_separations, halfwidth = input_separations, input_halfwidth
         pixscale_mas = frame.ext_hdr['PLTSCALE']  
         klip_tp = frame.hdu_list['KL_THRU'].data[1:,:,0]
         core_tp = frame.hdu_list['CT_THRU'].data[1]
-- 
2.43.0


From cefa2b9b7b4db4819168905f584b32f6e0ec77f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 42/88] fix: DQ array of PSF-subtracted images holds integer
 flags

---
 corgidrp/detector.py | 2 +-
 corgidrp/l3_to_l4.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/detector.py b/corgidrp/detector.py
index 83bcf01..6366fd2 100644
--- a/corgidrp/detector.py
+++ b/corgidrp/detector.py
@@ -611,6 +611,6 @@ def flag_nans(dataset,flag_val=1):
 
     # mask bad pixels
     bad = np.isnan(dataset_out.all_data)
-    dataset_out.all_dq[bad] |= flag_val
+    dataset_out.all_dq[bad] = dataset_out.all_dq[bad].astype(int) | flag_val
 
     return dataset_out
diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 7364fc6..1dc577d 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -545,7 +545,7 @@ def do_psf_subtraction(input_dataset,
 
     # TODO: Handle errors correctly
     err = np.zeros([1,*pyklip_data.shape])
-    dq = np.zeros_like(pyklip_data) # This will get filled out later
+    dq = np.zeros(pyklip_data.shape, dtype=np.uint16) # This will get filled out later
 
     # Collapse sci_dataset headers
     pri_hdr = sci_dataset[0].pri_hdr.copy()
-- 
2.43.0


From 5b3cd5704fb3d1d307ee09b05aa02e421f442b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 43/88] fix: slices of a dataset share their pixels with the
 dataset

---
 corgidrp/data.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index cd2c491..421da2b 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -71,7 +71,17 @@ class Dataset():
         else:
             # return a subset of the dataset. Use new frame objects (with the same headers), since the frames
             # of the subset point into the data cube of the subset and the ones here have to keep pointing into ours
-            return Dataset([copy.copy(frame) for frame in self.frames[indices]])
+            subset = Dataset([copy.copy(frame) for frame in self.frames[indices]])
+            if isinstance(indices, slice):
+                # the pixels of a slice are views into our data cube
+                subset.all_data = self.all_data[indices]
+                subset.all_err = self.all_err[indices]
+                subset.all_dq = self.all_dq[indices]
+                for i, frame in enumerate(subset.frames):
+                    frame.data = subset.all_data[i]
+                    frame.err = subset.all_err[i]
+                    frame.dq = subset.all_dq[i]
+            return subset
 
     def __len__(self):
         return len(self.frames)
@@ -246,7 +256,10 @@ class Dataset():
             pass # values of different types have no order. Keep the order of the frames
         split_datasets = []
         for combo in unique_vals:
-            sub_dataset = self[grouped_indices[combo]]
+            indices = grouped_indices[combo]
+            if indices[-1] - indices[0] + 1 == len(indices):
+                indices = slice(indices[0], indices[-1] + 1) # shares the pixels with this dataset
+            sub_dataset = self[indices]
             split_datasets.append(sub_dataset)
 
         return split_datasets, unique_vals
-- 
2.43.0


From 4515d718a7736df54052779178ffe40acdbad09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 44/88] fix: find_star does not disconnect the frames from the
 data cube of the dataset it returns

---
 corgidrp/l3_to_l4.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 1dc577d..ccb5b54 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -226,12 +226,9 @@ def find_star(input_dataset,
 
     observing_mode = observing_mode[0]
 
-    sci_dataset = data.Dataset(sci_frames)
-    sat_spot_dataset = data.Dataset(sat_spot_frames)
-
     # Compute median images
-    img_ref = np.median(sci_dataset.all_data, axis=0)
-    img_sat_spot = np.median(sat_spot_dataset.all_data, axis=0)
+    img_ref = np.median([frame.data for frame in sci_frames], axis=0)
+    img_sat_spot = np.median([frame.data for frame in sat_spot_frames], axis=0)
 
     # Default star_coordinate_guess to center of img_sat_spot if None
     if star_coordinate_guess is None:
@@ -256,7 +253,7 @@ def find_star(input_dataset,
     header_entries = {'STARLOCX': star_xy[0], 'STARLOCY': star_xy[1]}
 
     if drop_satspots_frames:
-        dataset = sci_dataset
+        dataset = data.Dataset(sci_frames)
 
     history_msg = (
         f"Satellite spots analyzed. Star location at x={star_xy[0]} "
-- 
2.43.0


From 9b78c74f09e91905b4888ef79b32a7276ee1d4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 45/88] fix: InterpolateCT keeps target positions at the
 maximum azimuth

---
 corgidrp/data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 421da2b..2435636 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -1813,8 +1813,9 @@ class CoreThroughputCalibration(Image):
         azimuth_cor = np.arctan2(y_cor, x_cor) - azimuth0
        
         # MOD this azimuth so that we're in the right range: all angles will be
-        # within [0, azimuths.max()), including negative values
-        azimuth_cor = azimuth_cor % azimuths.max()
+        # within [0, azimuths.max()], including negative values
+        az_out = (azimuth_cor < 0) | (azimuth_cor > azimuths.max())
+        azimuth_cor[az_out] = azimuth_cor[az_out] % azimuths.max()
        
         if logr: 
             radii = np.log10(radii)
-- 
2.43.0


From 40bd642ae59b0c46d74e9bdf1f033f752e305027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 46/88] fix: calculate_zero_point uses the aperture sum only

---
 corgidrp/l4_to_tda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index 14db59e..ea79c94 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -534,7 +534,7 @@ def calculate_zero_point(image, star_name, encircled_radius, phot_kwargs=None):
     app_mag = mag_dataset[0].ext_hdr["APP_MAG"]
 
     # Compute zero point using real measured photons
-    ap_sum = fluxcal.aper_phot(image, encircled_radius, **phot_kwargs, centering_initial_guess=None)
+    ap_sum = fluxcal.aper_phot(image, encircled_radius, **phot_kwargs, centering_initial_guess=None)[0]
     zp = app_mag + 2.5 * np.log10(ap_sum)
 
     return zp
\ No newline at end of file
-- 
2.43.0


From 8a23d9bd2d78d6ad93b0eed0113ff07c00005222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 47/88] fix: CreateCTMap saves the map to the given file

---
 corgidrp/corethroughput.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/corethroughput.py b/corgidrp/corethroughput.py
index 1f33ce9..05fe131 100644
--- a/corgidrp/corethroughput.py
+++ b/corgidrp/corethroughput.py
@@ -535,7 +535,7 @@ def CreateCTMap(
         if filepath == None:
             # Choose a default location and filename
             filepath = os.path.join(corgidrp.default_cal_dir, 'ct_map.csv')
-            np.savetxt(filepath, ct_map, delimiter=',', header='x, y, ct')
-            print(f'CT map saved in {filepath:s}')
+        np.savetxt(filepath, ct_map, delimiter=',', header='x, y, ct')
+        print(f'CT map saved in {filepath:s}')
     
     return ct_map
-- 
2.43.0


From 0832e12b4a6dfa0e072d49d5494f4832311e80e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 48/88] fix: Image.copy(copy_data=False) copies the headers of
 the extra extensions

---
 corgidrp/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 2435636..442d88c 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -529,8 +529,8 @@ class Image():
             new_img = copy.deepcopy(self)
         else:
             new_img = copy.copy(self)
-            # copy the hdu_list and hdu_names list, but not their pointers
-            new_img.hdu_list = self.hdu_list.copy()
+            # copy the hdu_list (with its headers, but not its data) and hdu_names list
+            new_img.hdu_list = fits.HDUList([hdu.copy() for hdu in self.hdu_list])
             new_img.hdu_names = copy.copy(self.hdu_names)
             # headers are always copied
             new_img.pri_hdr = self.pri_hdr.copy()
-- 
2.43.0


From 7b1b5a25dfa111fe439dc86843d91c7c8fe9ae76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 49/88] fix: calibrate_kgain does not modify the headers of the
 first input frame

---
 corgidrp/calibrate_kgain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/calibrate_kgain.py b/corgidrp/calibrate_kgain.py
index 8c4c99b..d9371d5 100644
--- a/corgidrp/calibrate_kgain.py
+++ b/corgidrp/calibrate_kgain.py
@@ -772,8 +772,8 @@ def calibrate_kgain(dataset_kgain,
              compiled_binned_shot_deviations]
     ptc = np.column_stack(ptc_list)
 
-    prhd = dataset_kgain.frames[0].pri_hdr
-    exthd = dataset_kgain.frames[0].ext_hdr
+    prhd = dataset_kgain.frames[0].pri_hdr.copy()
+    exthd = dataset_kgain.frames[0].ext_hdr.copy()
     # Read noise and error
     exthd['RN'] = mean_rn_gauss_e
     
-- 
2.43.0


From 4c8af0eded85e680f0f194c84d519ae63ec53666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 50/88] fix: calibrate_nonlin does not modify the headers of
 the first input frame

---
 corgidrp/calibrate_nonlin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/calibrate_nonlin.py b/corgidrp/calibrate_nonlin.py
index 3abe5d0..7e03b97 100644
--- a/corgidrp/calibrate_nonlin.py
+++ b/corgidrp/calibrate_nonlin.py
@@ -822,8 +822,8 @@ def calibrate_nonlin(dataset_nl,
     nonlin_data=np.insert(nonlin_arr3, 0, actual_gain_arr).reshape(n_col,n_row)
     
     # Return NonLinearity instance
-    prhd = dataset_nl.frames[0].pri_hdr
-    exthd = dataset_nl.frames[0].ext_hdr
+    prhd = dataset_nl.frames[0].pri_hdr.copy()
+    exthd = dataset_nl.frames[0].ext_hdr.copy()
     exthd['HISTORY'] = f"Non-linearity calibration derived from a set of frames on {exthd['DATETIME']}"
     # Just for the purpose of getting the instance created
     nonlin = data.NonLinearityCalibration(nonlin_data,
-- 
2.43.0


From ae9ca45e6255a1ed63100f34179d02d9e49a11cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 51/88] fix: create_TrapCalibration_from_trap_dict does not
 modify the headers of the first input frame

---
 corgidrp/pump_trap_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/pump_trap_calibration.py b/corgidrp/pump_trap_calibration.py
index adca7b3..0aa60bf 100644
--- a/corgidrp/pump_trap_calibration.py
+++ b/corgidrp/pump_trap_calibration.py
@@ -3289,8 +3289,8 @@ def create_TrapCalibration_from_trap_dict(trap_dict,input_dataset):
         trap_cal_array[i,9] = dict_entry['tau at input T']
 
     #Great the header from the first file
-    first_file_pri_hdr = input_dataset[0].pri_hdr
-    first_file_ext_hdr = input_dataset[0].ext_hdr
+    first_file_pri_hdr = input_dataset[0].pri_hdr.copy()
+    first_file_ext_hdr = input_dataset[0].ext_hdr.copy()
 
     trapcal = TrapCalibration(trap_cal_array,pri_hdr = first_file_pri_hdr, 
                     ext_hdr = first_file_ext_hdr, 
-- 
2.43.0


From 2dd3287a4237fcd09c139c6ed5680b00b786c458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 52/88] fix: boresight_calibration does not modify the headers
 of its input frames

---
 corgidrp/astrom.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 36e9d18..52c5f22 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -1080,7 +1080,7 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
                 file_name = input_dataset[count].filename
 
             comb = np.mean(sub_array, axis=0)
-            im = corgidrp.data.Image(comb, pri_hdr=input_dataset[count - frames_to_combine].pri_hdr, ext_hdr=input_dataset[0].ext_hdr)
+            im = corgidrp.data.Image(comb, pri_hdr=input_dataset[count - frames_to_combine].pri_hdr.copy(), ext_hdr=input_dataset[0].ext_hdr.copy())
             im.filename = file_name
             image_objects.append(im)
         
@@ -1150,7 +1150,7 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
     astromcal_data = np.concatenate((np.array([corr_pos_ra, corr_pos_dec, avg_platescale_x, avg_platescale_y, avg_northangle, avg_ra, avg_dec]), np.array(distortion_coeffs), np.array([order])), axis=0)
 
     astroms_dataset = corgidrp.data.Dataset(astroms)
-    avg_cal = corgidrp.data.AstrometricCalibration(astromcal_data, pri_hdr=input_dataset[0].pri_hdr, ext_hdr=input_dataset[0].ext_hdr, input_dataset=astroms_dataset)
+    avg_cal = corgidrp.data.AstrometricCalibration(astromcal_data, pri_hdr=input_dataset[0].pri_hdr.copy(), ext_hdr=input_dataset[0].ext_hdr.copy(), input_dataset=astroms_dataset)
     # add the corrected RA/DEC for each frame to the ext_hdr
     for i, corr in enumerate(corrected_positions_boresight):
         name = 'F'+str(i)+'POS'
@@ -1160,8 +1160,6 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
     history_msg = "Boresight calibration completed"
     astrom_cal_dataset = corgidrp.data.Dataset([avg_cal])
     astrom_cal_dataset.update_after_processing_step(history_msg)
-    ## history message should be added to the input dataset(?)
-    input_dataset.update_after_processing_step(history_msg)
 
     return avg_cal
 
-- 
2.43.0


From f04e590bd510138c6d7a69813d83f3a814113f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 53/88] fix: astrometric calibration lists exactly the frames
 that were combined

---
 corgidrp/astrom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 52c5f22..3b801fe 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -1077,11 +1077,12 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
                 file_name = input_dataset[-1].filename
             else:
                 sub_array = data_array[count - frames_to_combine: count]
-                file_name = input_dataset[count].filename
+                file_name = input_dataset[count - 1].filename
 
             comb = np.mean(sub_array, axis=0)
             im = corgidrp.data.Image(comb, pri_hdr=input_dataset[count - frames_to_combine].pri_hdr.copy(), ext_hdr=input_dataset[0].ext_hdr.copy())
             im.filename = file_name
+            im._record_parent_filenames(input_dataset[count - frames_to_combine:count])
             image_objects.append(im)
         
         dataset = corgidrp.data.Dataset(image_objects)
-- 
2.43.0


From 6e32d73649f7b1f19a063356e2736b195aa8bf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:57 +0000
Subject: [PATCH 54/88] fix: prescan_biassub finds the reliable prescan columns
 of ENG_CONV frames

---
 corgidrp/l1_to_l2a.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/corgidrp/l1_to_l2a.py b/corgidrp/l1_to_l2a.py
index 3151c17..88306ae 100644
--- a/corgidrp/l1_to_l2a.py
+++ b/corgidrp/l1_to_l2a.py
@@ -98,8 +98,10 @@ def prescan_biassub(input_dataset, noise_maps=None, return_full_frame=False,
 
             al_prescan = prescan
 
-        st = detector_regions[arrtype]['prescan']['col_start']
-        end = detector_regions[arrtype]['prescan']['col_end']
+        # columns of the full frame, whereas the prescan may not start at the first column (e.g., ENG_CONV)
+        p_c0 = detector_regions[arrtype]['prescan']['r0c0'][1]
+        st = detector_regions[arrtype]['prescan']['col_start'] - p_c0
+        end = detector_regions[arrtype]['prescan']['col_end'] - p_c0
 
         # Measure bias and error (standard error of the median for each row, add this to 3D image array)
         medbyrow = np.median(al_prescan[:,st:end], axis=1)[:, np.newaxis]
-- 
2.43.0


From 6c0088a60dcd08d72032f37bfb622291f7ef9291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 55/88] fix: imaging area of ENG_EM and ENG_CONV frames lies
 within the frame

---
 corgidrp/detector.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/corgidrp/detector.py b/corgidrp/detector.py
index 6366fd2..62223b4 100644
--- a/corgidrp/detector.py
+++ b/corgidrp/detector.py
@@ -338,14 +338,12 @@ def imaging_area_geom(arrtype, detector_regions=None):
         detector_regions = detector_areas
     _, cols_pre, _ = unpack_geom(arrtype, 'prescan', detector_regions)
     _, cols_serial_ovr, _ = unpack_geom(arrtype, 'serial_overscan', detector_regions)
-    rows_parallel_ovr, _, _ = unpack_geom(arrtype, 'parallel_overscan', detector_regions)
-    #_, _, r0c0_image = self._unpack_geom('image')
-    fluxmap_rows, _, r0c0_image = unpack_geom(arrtype, 'image', detector_regions)
+    rows_parallel_ovr, _, r0c0_parallel_ovr = unpack_geom(arrtype, 'parallel_overscan', detector_regions)
 
     rows_im = detector_regions[arrtype]['frame_rows'] - rows_parallel_ovr
     cols_im = detector_regions[arrtype]['frame_cols'] - cols_pre - cols_serial_ovr
-    r0c0_im = r0c0_image.copy()
-    r0c0_im[0] = r0c0_im[0] - (rows_im - fluxmap_rows)
+    # the imaging area ends where the parallel overscan begins, and has the same columns
+    r0c0_im = [r0c0_parallel_ovr[0] - rows_im, r0c0_parallel_ovr[1]]
 
     return rows_im, cols_im, r0c0_im
 
-- 
2.43.0


From 12d386a53d7bc810182613ebfabd05263ff25279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:44 +0000
Subject: [PATCH 56/88] fix: northup rotates the DQ map about the same center
 as the image (it was off by up to a pixel)

---
 corgidrp/l3_to_l4.py | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index ccb5b54..7e2a22e 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -10,8 +10,6 @@ from corgidrp import star_center
 import corgidrp
 from corgidrp.klip_fm import meas_klip_thrupt
 from corgidrp.corethroughput import get_1d_ct
-from scipy.ndimage import rotate as rotate_scipy # to avoid duplicated name
-from scipy.ndimage import shift
 import copy
 import warnings
 import numpy as np
@@ -722,27 +720,15 @@ def northup(input_dataset,use_wcs=True,rot_center='im_center'):
         #############
 
         ## HDU DQ ##
-        # all DQ pixels must have integers, use scipy.ndimage.rotate with order=0 instead of klip.rotate (rotating the other way)
+        # all DQ pixels must have integers: take the nearest input pixel, rotating about the same center as klip.rotate
         dq_data = processed_data.dq
-        if xcen != xlen/2 or ycen != ylen/2:
-                # padding, shifting (rot center to image center), rotating, re-shift (image center to rot center), and cropping
-                # calculate shift values
-                xshift = xcen-xlen/2; yshift = ycen-ylen/2
-
-                # pad and shift
-                pad_x = int(np.ceil(abs(xshift))); pad_y = int(np.ceil(abs(yshift)))
-                dq_data_padded = np.pad(dq_data,pad_width=((pad_y, pad_y), (pad_x, pad_x)),mode='constant',constant_values=0)
-                dq_data_padded_shifted = shift(dq_data_padded,(-yshift,-xshift),order=0,mode='constant',cval=0)
-
-                # define slices for cropping
-                crop_x = slice(pad_x,pad_x+xlen); crop_y = slice(pad_y,pad_y+ylen)
-
-                # rotate (invserse direction to pyklip.rotate), re-shift, and crop
-                dq_derot = shift(rotate_scipy(dq_data_padded_shifted, -roll_angle, order=0, mode='constant', reshape=False, cval=0),\
-                 (yshift,xshift),order=0,mode='constant',cval=0)[crop_y,crop_x]
-        else:
-                # simply rotate 
-                dq_derot = rotate_scipy(dq_data, -roll_angle, order=0, mode='constant', reshape=False, cval=0)
+        angle_rad = np.radians(roll_angle)
+        yout, xout = np.indices(dq_data.shape)
+        xin = np.rint((xout-xcen)*np.cos(angle_rad) + (yout-ycen)*np.sin(angle_rad) + xcen).astype(int)
+        yin = np.rint(-(xout-xcen)*np.sin(angle_rad) + (yout-ycen)*np.cos(angle_rad) + ycen).astype(int)
+        inside = (xin >= 0) & (xin < xlen) & (yin >= 0) & (yin < ylen)
+        dq_derot = np.zeros_like(dq_data)
+        dq_derot[inside] = dq_data[yin[inside], xin[inside]]
 
         new_all_dq.append(dq_derot)
         ############
-- 
2.43.0


From aebea08e0a73fdb4395ce3271b27d0978102cff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:56 +0000
Subject: [PATCH 57/88] fix: reading in a calibration file does not add its
 header comment again

---
 corgidrp/data.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 442d88c..171963b 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -843,7 +843,8 @@ class NonLinearityCalibration(Image):
             raise ValueError("File that was loaded was not a NonLinearityCalibration file.")
         if self.ext_hdr['DATATYPE'] != 'NonLinearityCalibration':
             raise ValueError("File that was loaded was not a NonLinearityCalibration file.")
-        self.dq_hdr['COMMENT'] = 'DQ not meaningful for this calibration; just present for class consistency' 
+        if ext_hdr is not None: # a file that is read in has the comment already
+            self.dq_hdr['COMMENT'] = 'DQ not meaningful for this calibration; just present for class consistency'
         
 class KGain(Image):
     """
@@ -1020,8 +1021,9 @@ class BadPixelMap(Image):
             raise ValueError("File that was loaded was not a BadPixelMap file.")
         if self.ext_hdr['DATATYPE'] != 'BadPixelMap':
             raise ValueError("File that was loaded was not a BadPixelMap file.")
-        self.dq_hdr['COMMENT'] = 'DQ not meaningful for this calibration; just present for class consistency' 
-        self.err_hdr['COMMENT'] = 'err not meaningful for this calibration; just present for class consistency' 
+        if ext_hdr is not None: # a file that is read in has the comment already
+            self.dq_hdr['COMMENT'] = 'DQ not meaningful for this calibration; just present for class consistency'
+            self.err_hdr['COMMENT'] = 'err not meaningful for this calibration; just present for class consistency'
 
 class DetectorNoiseMaps(Image):
     """
@@ -1313,7 +1315,8 @@ class AstrometricCalibration(Image):
         # check that this is actually an AstrometricCalibration file that was read in
         if 'DATATYPE' not in self.ext_hdr or self.ext_hdr['DATATYPE'] != 'AstrometricCalibration':
             raise ValueError("File that was loaded was not an AstrometricCalibration file.")    
-        self.dq_hdr['COMMENT'] = 'DQ not meaningful for this calibration; just present for class consistency'     
+        if ext_hdr is not None: # a file that is read in has the comment already
+            self.dq_hdr['COMMENT'] = 'DQ not meaningful for this calibration; just present for class consistency'
     
 class TrapCalibration(Image):
     """
@@ -1364,7 +1367,8 @@ class TrapCalibration(Image):
         # since if only a filepath was passed in, any file could have been read in
         if 'DATATYPE' not in self.ext_hdr or self.ext_hdr['DATATYPE'] != 'TrapCalibration':
             raise ValueError("File that was loaded was not a TrapCalibration file.")
-        self.dq_hdr['COMMENT'] = 'DQ not meaningful for this calibration; just present for class consistency' 
+        if ext_hdr is not None: # a file that is read in has the comment already
+            self.dq_hdr['COMMENT'] = 'DQ not meaningful for this calibration; just present for class consistency'
 
 class FluxcalFactor(Image):
     """
-- 
2.43.0


From c75b1264a4c4d7308f12f6686162d1b922bc1bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 58/88] fix: KGain.save also writes the flags and the extra
 extensions

---
 corgidrp/data.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 171963b..0d0ecf4 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -966,6 +966,13 @@ class KGain(Image):
         ptchdu = fits.ImageHDU(data=self.ptc, header = self.ptc_hdr)
         hdulist.append(ptchdu)
 
+        dqhdu = fits.ImageHDU(data=self.dq, header = self.dq_hdr)
+        hdulist.append(dqhdu)
+
+        for hdu in self.hdu_list:
+            if hdu.name != "PTC": # of the file that was read in, already saved above
+                hdulist.append(hdu)
+
         hdulist.writeto(self.filepath, overwrite=True)
         hdulist.close()
 
-- 
2.43.0


From 49e7c94f5759e4e6b0f848840da7aa769021b9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 59/88] fix: CalDB reads numbers back exactly, so that darks of
 any exposure time are found

---
 corgidrp/caldb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/caldb.py b/corgidrp/caldb.py
index b98dbb5..7c37ec6 100644
--- a/corgidrp/caldb.py
+++ b/corgidrp/caldb.py
@@ -86,7 +86,8 @@ class CalDB:
         """
         Load/update db from filepath
         """
-        self._db = pd.read_csv(self.filepath, dtype=column_dtypes)
+        # read numbers exactly as they were saved (e.g. exposure times are matched by their value)
+        self._db = pd.read_csv(self.filepath, dtype=column_dtypes, float_precision="round_trip")
 
     def save(self):
         """
-- 
2.43.0


From 6861d33b826e5f074cb374518ee387221fbbf3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 60/88] fix: recipes without input files can be run with
 just-in-time calibrations

---
 corgidrp/walker.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index 4812c46..cf93991 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -433,6 +433,10 @@ def _run_recipe_steps(recipe, save_recipe_file):
                     if isinstance(curr_dataset, data.Dataset):
                         ref_image = curr_dataset[0]
                         list_of_frames = curr_dataset
+                    elif isinstance(curr_dataset, list):
+                        # recipe without input files
+                        ref_image = None
+                        list_of_frames = []
                     else:
                         ref_image = curr_dataset
                         list_of_frames = [curr_dataset]
-- 
2.43.0


From 1f36549223c7a3d492224c89b4b565db688e850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 61/88] fix: l2b_to_l4 recipe gives PSF subtraction the core
 throughput calibration it requires

---
 corgidrp/recipe_templates/l2b_to_l4.json | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/corgidrp/recipe_templates/l2b_to_l4.json b/corgidrp/recipe_templates/l2b_to_l4.json
index a12a3d5..8126b64 100644
--- a/corgidrp/recipe_templates/l2b_to_l4.json
+++ b/corgidrp/recipe_templates/l2b_to_l4.json
@@ -32,7 +32,10 @@
             "name": "find_star"
         },
         {
-            "name": "do_psf_subtraction"
+            "name": "do_psf_subtraction",
+            "calibs": {
+                "CoreThroughputCalibration": "AUTOMATIC"
+            }
         },
         {
             "name": "update_to_l4",
-- 
2.43.0


From 8f260e7a173cdbe686b9eaaf2187d6b7408b61d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 62/88] fix: recipes save the plots and intermediate files of
 their steps in the output directory only

---
 corgidrp/recipe_templates/l1_to_kgain.json      | 1 +
 corgidrp/recipe_templates/l1_to_l2a_nonlin.json | 5 ++++-
 corgidrp/recipe_templates/l2b_to_l4.json        | 3 +++
 corgidrp/recipe_templates/l3_to_l4.json         | 3 +++
 corgidrp/recipe_templates/test.json             | 5 ++++-
 corgidrp/walker.py                              | 9 +++++----
 6 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/corgidrp/recipe_templates/l1_to_kgain.json b/corgidrp/recipe_templates/l1_to_kgain.json
index cad6e2a..d087085 100644
--- a/corgidrp/recipe_templates/l1_to_kgain.json
+++ b/corgidrp/recipe_templates/l1_to_kgain.json
@@ -47,6 +47,7 @@
 	{
 	    "name" : "calibrate_kgain",
 	    "keywords" : {
+	        "plot_outdir" : "AUTOMATIC",
 	        "detector_regions" : {
 		    "SCI" : {
 		        "frame_rows" : 1200,
diff --git a/corgidrp/recipe_templates/l1_to_l2a_nonlin.json b/corgidrp/recipe_templates/l1_to_l2a_nonlin.json
index 8b476ea..0f44d8d 100644
--- a/corgidrp/recipe_templates/l1_to_l2a_nonlin.json
+++ b/corgidrp/recipe_templates/l1_to_l2a_nonlin.json
@@ -44,7 +44,10 @@
             }
         },
         {
-            "name" : "calibrate_nonlin"
+            "name" : "calibrate_nonlin",
+            "keywords" : {
+                "plot_outdir" : "AUTOMATIC"
+            }
         },
         {
             "name" : "save"
diff --git a/corgidrp/recipe_templates/l2b_to_l4.json b/corgidrp/recipe_templates/l2b_to_l4.json
index 8126b64..78e8459 100644
--- a/corgidrp/recipe_templates/l2b_to_l4.json
+++ b/corgidrp/recipe_templates/l2b_to_l4.json
@@ -35,6 +35,9 @@
             "name": "do_psf_subtraction",
             "calibs": {
                 "CoreThroughputCalibration": "AUTOMATIC"
+            },
+            "keywords": {
+                "outdir": "AUTOMATIC"
             }
         },
         {
diff --git a/corgidrp/recipe_templates/l3_to_l4.json b/corgidrp/recipe_templates/l3_to_l4.json
index b400b2c..8b6d9ad 100644
--- a/corgidrp/recipe_templates/l3_to_l4.json
+++ b/corgidrp/recipe_templates/l3_to_l4.json
@@ -20,6 +20,9 @@
             "name": "do_psf_subtraction",
             "calibs": {
                 "CoreThroughputCalibration": "AUTOMATIC"
+            },
+            "keywords": {
+                "outdir": "AUTOMATIC"
             }
         },
         {
diff --git a/corgidrp/recipe_templates/test.json b/corgidrp/recipe_templates/test.json
index bb1e64d..08e1ea6 100644
--- a/corgidrp/recipe_templates/test.json
+++ b/corgidrp/recipe_templates/test.json
@@ -44,7 +44,10 @@
               }
         },
         {
-            "name" : "calibrate_nonlin"
+            "name" : "calibrate_nonlin",
+            "keywords" : {
+                "plot_outdir" : "AUTOMATIC"
+            }
         },
         {
             "name" : "save"
diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index cf93991..5e93053 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -159,7 +159,7 @@ def autogen_recipe(filelist, outputdir, template=None):
 
         ## Populate default values
         ## This includes calibration files that need to be automatically determined
-        ## This also includes the dark subtraction outputdir for synthetic darks
+        ## This also includes the output directories of steps, e.g., for synthetic darks
         this_caldb = caldb.CalDB()
         for step in recipe["steps"]:
             # by default, identify all the calibration files needed, unless jit setting is turned on
@@ -169,9 +169,10 @@ def autogen_recipe(filelist, outputdir, template=None):
             elif ("jit_calib_id" not in recipe['drpconfig']) and (not corgidrp.jit_calib_id):
                 _fill_in_calib_files(step, this_caldb, first_frame)
 
-            if step["name"].lower() == "dark_subtraction":
-                if step["keywords"]["outputdir"].upper() == "AUTOMATIC":
-                    step["keywords"]["outputdir"] = recipe["outputdir"]
+            # directories that a step writes files of its own into
+            for keyword in ["outputdir", "outdir", "plot_outdir"]:
+                if "keywords" in step and str(step["keywords"].get(keyword)).upper() == "AUTOMATIC":
+                    step["keywords"][keyword] = recipe["outputdir"]
 
         recipe_list.append(recipe)
     
-- 
2.43.0


From ca8a4a82052ce6f32de1d673ce3f7a31bbe4848e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 63/88] fix: sort_pupilimg_frames finds the k-gain sequence
 wherever it was taken in the visit

---
 corgidrp/sorting.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/corgidrp/sorting.py b/corgidrp/sorting.py
index 8055848..f665c8c 100644
--- a/corgidrp/sorting.py
+++ b/corgidrp/sorting.py
@@ -115,12 +115,13 @@ def sort_pupilimg_frames(
             unity_gain_filepath_list += [frame.filepath]
     idx_id_sort = np.argsort(frame_id_list)
     exptime_arr = np.array(exptime_list)[idx_id_sort]
+    diff_id_arr = np.diff(np.array(frame_id_list)[idx_id_sort], prepend=0)
     # Count repeated, consecutive elements
     count_cons = [1]
     exptime_cons = [exptime_arr[0]]
     idx_cons = 0
-    for exptime in exptime_arr:
-        if exptime == exptime_cons[-1]:
+    for idx, exptime in enumerate(exptime_arr):
+        if exptime == exptime_cons[-1] and (idx == 0 or diff_id_arr[idx] == 1):
             count_cons[idx_cons] += 1
         else:
             idx_cons += 1
@@ -147,14 +148,15 @@ def sort_pupilimg_frames(
             idx_cons2 += [idx_count+1]
         # Last exposure time must be repeated and only once
         elif (diff_exp[idx_count] < 0  and
-            exptime_cons[idx_count+1] in exptime_cons[0:idx_count+1] and
+            exptime_cons[idx_count+1] in exptime_cons2 and
             len(exptime_cons2) == len(set(exptime_cons2))):
             kgain_subset += [idx_cons2[0], idx_count+1]
             idx_cons2 = [idx_count+1]
             exptime_cons2 = [exptime_cons[idx_count+1]]
         else:
-        # It is not a subset for kgain
-           continue
+        # It is not a subset for kgain, which may start with the next set
+            idx_cons2 = [idx_count+1]
+            exptime_cons2 = [exptime_cons[idx_count+1]]
     # Choose the largest subset
     kgain_subset = np.array(kgain_subset)
     idx_kgain = np.argmax(kgain_subset[1::2] - kgain_subset[0::2])
-- 
2.43.0


From 3dc57f3497e903ac0121b2024ab2fb2dc071db19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 64/88] fix: inject_psf picks the closest PSF at the star's
 position on the full detector

The core throughput calibration gives positions on the full array; the star
position of a cropped frame has to be shifted by DETPIX0X/Y first.
---
 corgidrp/klip_fm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/klip_fm.py b/corgidrp/klip_fm.py
index 9a77ad8..b2e2567 100644
--- a/corgidrp/klip_fm.py
+++ b/corgidrp/klip_fm.py
@@ -68,8 +68,8 @@ def inject_psf(frame_in, ct_calibration, amp,
     dx,dy = seppa2dxdy(sep_pix,rel_pa)
 
     psf_model = get_closest_psf(ct_calibration,
-                                frame.ext_hdr['STARLOCX'],
-                                frame.ext_hdr['STARLOCY'],
+                                frame.ext_hdr['STARLOCX'] + frame.ext_hdr.get('DETPIX0X',0.),
+                                frame.ext_hdr['STARLOCY'] + frame.ext_hdr.get('DETPIX0Y',0.),
                                 dx,dy).copy() 
 
     # Scale counts
-- 
2.43.0


From 511ba7a9b75e9bf10162f227224df5ceeac28c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 65/88] fix: KLIP throughput rows belong to the separations
 they are listed with

The medians were taken in sorted order but stored next to the separations in
the order given.
---
 corgidrp/klip_fm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/klip_fm.py b/corgidrp/klip_fm.py
index b2e2567..1fc6949 100644
--- a/corgidrp/klip_fm.py
+++ b/corgidrp/klip_fm.py
@@ -501,7 +501,7 @@ def meas_klip_thrupt(sci_dataset_in,ref_dataset_in, # pre-psf-subtracted dataset
         mean_outfwhms = []
         # TODO: If no measurements available for a given sep
         # show warning and add np.nan 
-        for sep in np.unique(seps_arr):
+        for sep in seps:
             this_sep_thrupts = np.where(seps_arr==sep,this_klmode_thrupts,np.nan)
             mean_thrupt = np.nanmedian(this_sep_thrupts)
             mean_thrupts.append(mean_thrupt)
-- 
2.43.0


From 12ef3c67125ffb824144e383d24b647926607ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 66/88] fix: core throughput of a PSF-subtracted image is
 looked up at the science frame's star position

The output's STARLOCX/Y refer to the PSF-subtracted image, while the
calibration is given on the detector.
---
 corgidrp/l3_to_l4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 7e2a22e..77b5995 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -626,7 +626,7 @@ def do_psf_subtraction(input_dataset,
         else:
             seps = np.array([5.,10.,15.,20.,25.,30.,35.])
 
-        ct_1d = get_1d_ct(ct_calibration,dataset_out[0],seps)
+        ct_1d = get_1d_ct(ct_calibration,sci_dataset[0],seps)
 
         ct_hdr = fits.Header()
         # Core throughput values on EXCAM wrt pixel (0,0) (not a "CT map", which is
-- 
2.43.0


From 9a19b3d7dbf73355818e57c091388bdf9b65b395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 67/88] fix: boresight_calibration uses the field matches it is
 given

---
 corgidrp/astrom.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 3b801fe..3a2e13e 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -1035,6 +1035,8 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
     # load in the source matches if automated source finder is not being used
     matched_sources_multiframe = []
     if field_matches is not None:
+        if isinstance(field_matches, (str, astropy.table.Table)):
+            field_matches = [field_matches]
         if len(field_matches) == 1: # single str or astropy.table case
             for i in range(len(dataset)):
                 if type(field_matches[0]) == str:
@@ -1108,8 +1110,11 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
         target_coord_tables.append(target_coord_tab)
    
         # compute the calibration properties
-        found_sources = find_source_locations(image, threshold=find_threshold, fwhm=fwhm, mask_rad=mask_rad)
-        matched_sources = match_sources(dataset[i], found_sources, field_path, comparison_threshold=comparison_threshold, rad=search_rad, platescale_guess=platescale_guess, platescale_tol=platescale_tol)
+        if field_matches is not None:
+            matched_sources = matched_sources_multiframe[i]
+        else:
+            found_sources = find_source_locations(image, threshold=find_threshold, fwhm=fwhm, mask_rad=mask_rad)
+            matched_sources = match_sources(dataset[i], found_sources, field_path, comparison_threshold=comparison_threshold, rad=search_rad, platescale_guess=platescale_guess, platescale_tol=platescale_tol)
         # if len(hold_matches) < 1:
         hold_matches.append(matched_sources)
 
-- 
2.43.0


From a5de939ce22759518c4b82a4fe72efb6556f2e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 68/88] fix: north angle is measured over the full circle

arctan and plain means of angles only worked for images close to upright.
---
 corgidrp/astrom.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 3a2e13e..3fdfad1 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -1,3 +1,4 @@
+import itertools
 import numpy as np
 import os
 import sys
@@ -503,7 +504,9 @@ def match_sources(image, sources, field_path, comparison_threshold=50, rad=0.012
     rot_image = np.array([angle_between((targetx, targety), (s['x'], s['y'])) for s in [source1, source2, source3]])
     rot_field = np.array([target_skycoord.position_angle(t).deg for t in skycoords[[best_sky_ind]]])
 
-    initial_northangle = np.abs(np.mean(rot_field - rot_image))
+    # the triangle vertices may be listed in a different order in the field: pair them so that the rotations agree best
+    rotations = [np.mean(np.exp(1j * np.radians(rot_field.ravel()[list(order)] - rot_image))) for order in itertools.permutations(range(3))]
+    initial_northangle = np.degrees(np.angle(max(rotations, key=np.abs)))
 
     # make a new image header with the pseudo platescale and north angle to find matchings
     # allow for some error window and assign the closest star to each source
@@ -784,7 +787,7 @@ def compute_platescale_and_northangle(image, source_info, center_coord, center_r
         if i != same_ind:
             numerator = np.sin(np.radians(sky - pix))
             denominator = np.cos(np.radians(sky - pix))
-            north_offset = np.degrees(np.arctan(numerator / denominator))
+            north_offset = np.degrees(np.arctan2(numerator, denominator))
             # if sky > pix:
             #     north_offset = sky - pix
             # else:
@@ -795,8 +798,8 @@ def compute_platescale_and_northangle(image, source_info, center_coord, center_r
     if same_ind != None:
         offset = np.delete(offset, same_ind)
 
-    # use the median to avoid bias
-    north_angle = np.mean(offset)
+    # average on the circle
+    north_angle = np.degrees(np.angle(np.mean(np.exp(1j * np.radians(offset)))))
     
     return platescale, north_angle
 
@@ -1136,7 +1139,7 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
     avg_dec = np.mean([astro.avg_offset[1] for astro in astroms])
     avg_platescale_x = np.mean([astro.platescale[0] for astro in astroms])
     avg_platescale_y = np.mean([astro.platescale[1] for astro in astroms])
-    avg_northangle = np.mean([astro.northangle for astro in astroms])
+    avg_northangle = np.degrees(np.angle(np.mean(np.exp(1j * np.radians([astro.northangle for astro in astroms])))))
 
     # compute the distortion map coeffs
     if find_distortion:
-- 
2.43.0


From 8f3e5a3f9816ec2a42c556bdbe9180c67c2826d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 69/88] fix: boresight offset is taken from the sky position of
 the image centre

---
 corgidrp/astrom.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 3fdfad1..4d501e9 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -880,13 +880,12 @@ def compute_boresight(image, source_info, target_coordinate, cal_properties):
     # average all offsets in x,y directions [pix]
     boresight_x, boresight_y = np.mean(boresights[:,0]), np.mean(boresights[:,1])
 
-    # convert back to corrected RA, DEC of target
-    # image_center_RA = target_coordinate[0] - ((boresight_x * cal_properties[0]) * astropy.units.mas).to(astropy.units.deg).value
-    # image_center_DEC = target_coordinate[1] - ((boresight_y * cal_properties[0]) * astropy.units.mas).to(astropy.units.deg).value
+    # the reference pixel actually points at the sky position predicted for the pixel shifted back by the offset
+    image_center = astropy.wcs.utils.pixel_to_skycoord(new_hdr['CRPIX1'] - 1 - boresight_x, new_hdr['CRPIX2'] - 1 - boresight_y, wcs=w)
 
     # report the offsets instead of the new RA/DEC
-    boresight_ra = ((boresight_x * cal_properties[0]) * astropy.units.mas).to(astropy.units.deg).value
-    boresight_dec = ((boresight_y * cal_properties[0]) * astropy.units.mas).to(astropy.units.deg).value
+    boresight_ra = (target_coordinate[0] - image_center.ra.deg + 180.) % 360. - 180.
+    boresight_dec = target_coordinate[1] - image_center.dec.deg
 
     return boresight_ra, boresight_dec
 
-- 
2.43.0


From 9638792f849f48bc154a853d8fa4353c7088f453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 70/88] fix: find_source_locations pads images that are not
 square

---
 corgidrp/astrom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 4d501e9..4e1cfc0 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -397,7 +397,7 @@ def find_source_locations(image_data, threshold=10, fwhm=7, mask_rad=1):
     # pad the image to fit stars along the edge
 
     pad = 25
-    full_frame = np.zeros([image_shape[1]+(pad*2), image_shape[0]+(pad*2)])
+    full_frame = np.zeros([image_shape[0]+(pad*2), image_shape[1]+(pad*2)])
     full_frame[pad:-pad, pad:-pad] = image_data
     fit_gauss_image = np.copy(full_frame)
 
-- 
2.43.0


From 8fc5a99fbd2375cef9054e47d0e0216a86e7af6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 71/88] fix: calibrate_darks_lsq copes with the lowest gain x
 time stack having the highest gain

---
 corgidrp/darks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/darks.py b/corgidrp/darks.py
index 46694f7..4e58f82 100644
--- a/corgidrp/darks.py
+++ b/corgidrp/darks.py
@@ -564,7 +564,8 @@ def calibrate_darks_lsq(dataset, detector_params, detector_regions=None):
     # same time, next gain up from least gain (close in time*gain but different
     # gain so that effective read noise values are more uncorrelated)
     tinds = np.where(exptime_arr == exptime_arr[min1])
-    nextg = EMgain_arr[EMgain_arr > EMgain_arr[min1]].min()
+    # (there is no next gain up if that stack already has the highest gain)
+    nextg = EMgain_arr[EMgain_arr > EMgain_arr[min1]].min(initial=np.inf)
     ginds = np.where(EMgain_arr == nextg)
     intersect = np.intersect1d(tinds, ginds)
     if intersect.size > 0:
-- 
2.43.0


From 550e1593f9d51b19cb38f529a19b1be6d7ff367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 72/88] fix: northup turns the reference pixel and star
 location of the header with the image

---
 corgidrp/l3_to_l4.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 77b5995..fef14d3 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -711,6 +711,14 @@ def northup(input_dataset,use_wcs=True,rot_center='im_center'):
             sci_hd['CD1_2'] = astr_hdr.wcs.cd[0,1]
             sci_hd['CD2_1'] = astr_hdr.wcs.cd[1,0]
             sci_hd['CD2_2'] = astr_hdr.wcs.cd[1,1]
+
+        # the reference pixel (1-based) and the star move with the pixels
+        cos_roll, sin_roll = np.cos(np.radians(roll_angle)), np.sin(np.radians(roll_angle))
+        for key_x, key_y, base in [('CRPIX1', 'CRPIX2', 1), ('STARLOCX', 'STARLOCY', 0)]:
+            if key_x in sci_hd and key_y in sci_hd:
+                dx, dy = sci_hd[key_x] - base - xcen, sci_hd[key_y] - base - ycen
+                sci_hd[key_x] = xcen + dx*cos_roll - dy*sin_roll + base
+                sci_hd[key_y] = ycen + dx*sin_roll + dy*cos_roll + base
         #############
 
         ## HDU ERR ##
-- 
2.43.0


From ecd20463813c3488c5358e0d118788ff4b441b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:07 +0000
Subject: [PATCH 73/88] fix: compute_flux_ratio_noise starts the star's fit at
 (x, y), not (row, column)

---
 corgidrp/l4_to_tda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index ea79c94..8385bed 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -279,7 +279,7 @@ def compute_flux_ratio_noise(input_dataset, NDcalibration, unocculted_star_datas
         median_col = closest_indices[1][highest_density_index]
         fwhm_guess = 2*np.sqrt((median_row-guess_row)**2 + (median_col-guess_col)**2)
 
-        psf_phot = fit_2dgaussian(data, xypos=pos, fit_shape=fit_shape, fwhm=fwhm_guess, fix_fwhm=False,
+        psf_phot = fit_2dgaussian(data, xypos=(guess_col, guess_row), fit_shape=fit_shape, fwhm=fwhm_guess, fix_fwhm=False,
                                 mask=mask, error=None)
         star_xs = psf_phot.results['x_fit']
         star_ys = psf_phot.results['y_fit']
-- 
2.43.0


From ddad2f179e861b947465c5f19760bda001688caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:51 +0000
Subject: [PATCH 74/88] fix: calibrate_nonlin compares the second set of
 repeated exposures with the first

---
 corgidrp/calibrate_nonlin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/calibrate_nonlin.py b/corgidrp/calibrate_nonlin.py
index 7e03b97..9fdd031 100644
--- a/corgidrp/calibrate_nonlin.py
+++ b/corgidrp/calibrate_nonlin.py
@@ -614,8 +614,9 @@ def calibrate_nonlin(dataset_nl,
                     mean_signal.append(np.nanmean(frame_mean))
                     repeat1_mean_signal = np.nanmean(frame_mean)
                     
+                    frame_mean = []
                     second_half = len(selected_files)
-                    for i in range(first_half + 1, second_half):
+                    for i in range(first_half, second_half):
                        
                         frame_1 = selected_files[i]
                         frame_1 = frame_1.astype(np.float64)
-- 
2.43.0


From fc7f3b9c9b6cccb8465bac3e2f65e749672ae7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:59 +0000
Subject: [PATCH 75/88] fix: calibrate_nonlin takes one measured gain per set
 of frames

---
 corgidrp/calibrate_nonlin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/calibrate_nonlin.py b/corgidrp/calibrate_nonlin.py
index 9fdd031..48b042b 100644
--- a/corgidrp/calibrate_nonlin.py
+++ b/corgidrp/calibrate_nonlin.py
@@ -907,7 +907,7 @@ def nonlin_dataset_2_stack(dataset):
                             gains.append(frame.ext_hdr['EMGAIN_A'])
                         else: # use commanded gain otherwise
                             gains.append(frame.ext_hdr['EMGAIN_C'])
-                        record_gain = False
+                    record_gain = False
             else:
                 raise Exception('OBSNAME can only be MNFRAME or NONLIN in non-linearity')
         
-- 
2.43.0


From b471ac686f34d8b9d0df5b65b8440c30c673e1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:05 +0000
Subject: [PATCH 76/88] fix: trap_fit passes the number of pumps to the fitted
 functions

---
 corgidrp/pump_trap_calibration.py | 81 ++++++++++++++++---------------
 1 file changed, 41 insertions(+), 40 deletions(-)

diff --git a/corgidrp/pump_trap_calibration.py b/corgidrp/pump_trap_calibration.py
index 0aa60bf..d73ed4b 100644
--- a/corgidrp/pump_trap_calibration.py
+++ b/corgidrp/pump_trap_calibration.py
@@ -17,6 +17,7 @@ https://doi.org/10.1117/1.JATIS.7.1.016003
     - output is now a corgi.drp.TrapCalibration object
 """
 import warnings
+from functools import partial
 import numpy as np
 
 from corgidrp.detector import *
@@ -741,10 +742,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
         if both_a == None:
             # attempt all possible probability functions
             try:
-                popt1l, pcov1l = curve_fit(P1, times, amps, bounds=bounds_one,
-                p0 = p01l, maxfev = np.inf,kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-                popt1u, pcov1u = curve_fit(P1, times, amps, bounds=bounds_one,
-                p0 = p01u, maxfev = np.inf,kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+                popt1l, pcov1l = curve_fit(partial(P1, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01l, maxfev = np.inf)#, sigma = 0.1*amps)
+                popt1u, pcov1u = curve_fit(partial(P1, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01u, maxfev = np.inf)#, sigma = 0.1*amps)
             except:
                 warnings.warn('curve_fit failed')
                 return None
@@ -765,10 +766,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
                 popt1 = popt1u; pcov1 = pcov1u
 
             try:
-                popt2l, pcov2l = curve_fit(P2, times, amps, bounds=bounds_one,
-                p0 = p01l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-                popt2u, pcov2u = curve_fit(P2, times, amps, bounds=bounds_one,
-                p0 = p01u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+                popt2l, pcov2l = curve_fit(partial(P2, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01l, maxfev = np.inf)#, sigma = 0.1*amps)
+                popt2u, pcov2u = curve_fit(partial(P2, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01u, maxfev = np.inf)#, sigma = 0.1*amps)
             except:
                 warnings.warn('curve_fit failed')
                 return None
@@ -805,10 +806,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
         # maxR1 must have been below fit_thresh.  Now try 2 traps
 
         try:
-            popt11l, pcov11l = curve_fit(P1_P1, times, amps, bounds=bounds_two,
-            p0 = p02l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-            popt11u, pcov11u = curve_fit(P1_P1, times, amps, bounds=bounds_two,
-            p0 = p02u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+            popt11l, pcov11l = curve_fit(partial(P1_P1, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02l, maxfev = np.inf)#, sigma = 0.1*amps)
+            popt11u, pcov11u = curve_fit(partial(P1_P1, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02u, maxfev = np.inf)#, sigma = 0.1*amps)
         except:
             warnings.warn('curve_fit failed')
             return None
@@ -831,10 +832,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
             popt11 = popt11u; pcov11 = pcov11u
 
         try:
-            popt12l, pcov12l = curve_fit(P1_P2, times, amps, bounds=bounds_two,
-            p0 = p02l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-            popt12u, pcov12u = curve_fit(P1_P2, times, amps, bounds=bounds_two,
-            p0 = p02u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+            popt12l, pcov12l = curve_fit(partial(P1_P2, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02l, maxfev = np.inf)#, sigma = 0.1*amps)
+            popt12u, pcov12u = curve_fit(partial(P1_P2, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02u, maxfev = np.inf)#, sigma = 0.1*amps)
         except:
             warnings.warn('curve_fit failed')
             return None
@@ -857,10 +858,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
             popt12 = popt12u; pcov12 = pcov12u
 
         try:
-            popt22l, pcov22l = curve_fit(P2_P2, times, amps, bounds=bounds_two,
-            p0 = p02l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-            popt22u, pcov22u = curve_fit(P2_P2, times, amps, bounds=bounds_two,
-            p0 = p02u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+            popt22l, pcov22l = curve_fit(partial(P2_P2, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02l, maxfev = np.inf)#, sigma = 0.1*amps)
+            popt22u, pcov22u = curve_fit(partial(P2_P2, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02u, maxfev = np.inf)#, sigma = 0.1*amps)
         except:
             warnings.warn('curve_fit failed')
             return None
@@ -974,10 +975,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
         if both_a == None:
             #attempt both probability functions
             try:
-                popt3l, pcov3l = curve_fit(P3, times, amps, bounds=bounds_one,
-                p0 = p01l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-                popt3u, pcov3u = curve_fit(P3, times, amps, bounds=bounds_one,
-                p0 = p01u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+                popt3l, pcov3l = curve_fit(partial(P3, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01l, maxfev = np.inf)#, sigma = 0.1*amps)
+                popt3u, pcov3u = curve_fit(partial(P3, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01u, maxfev = np.inf)#, sigma = 0.1*amps)
             except:
                 warnings.warn('curve_fit failed')
                 return None
@@ -998,10 +999,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
                 popt3 = popt3u; pcov3 = pcov3u
 
             try:
-                popt2l, pcov2l = curve_fit(P2, times, amps, bounds=bounds_one,
-                p0 = p01l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-                popt2u, pcov2u = curve_fit(P2, times, amps, bounds=bounds_one,
-                p0 = p01u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+                popt2l, pcov2l = curve_fit(partial(P2, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01l, maxfev = np.inf)#, sigma = 0.1*amps)
+                popt2u, pcov2u = curve_fit(partial(P2, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01u, maxfev = np.inf)#, sigma = 0.1*amps)
             except:
                 warnings.warn('curve_fit failed')
                 return None
@@ -1038,10 +1039,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
         # maxR1 must have been below fit_thresh.  Now try 2 traps
 
         try:
-            popt33l, pcov33l = curve_fit(P3_P3, times, amps, bounds=bounds_two,
-            p0 = p02l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-            popt33u, pcov33u = curve_fit(P3_P3, times, amps, bounds=bounds_two,
-            p0 = p02u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+            popt33l, pcov33l = curve_fit(partial(P3_P3, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02l, maxfev = np.inf)#, sigma = 0.1*amps)
+            popt33u, pcov33u = curve_fit(partial(P3_P3, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02u, maxfev = np.inf)#, sigma = 0.1*amps)
         except:
             warnings.warn('curve_fit failed')
             return None
@@ -1064,10 +1065,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
             popt33 = popt33u; pcov33 = pcov33u
 
         try:
-            popt23l, pcov23l = curve_fit(P2_P3, times, amps, bounds=bounds_two,
-            p0 = p02l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-            popt23u, pcov23u = curve_fit(P2_P3, times, amps, bounds=bounds_two,
-            p0 = p02u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+            popt23l, pcov23l = curve_fit(partial(P2_P3, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02l, maxfev = np.inf)#, sigma = 0.1*amps)
+            popt23u, pcov23u = curve_fit(partial(P2_P3, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02u, maxfev = np.inf)#, sigma = 0.1*amps)
         except:
             warnings.warn('curve_fit failed')
             return None
@@ -1090,10 +1091,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
             popt23 = popt23u; pcov23 = pcov23u
 
         try:
-            popt22l, pcov22l = curve_fit(P2_P2, times, amps, bounds=bounds_two,
-            p0 = p02l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-            popt22u, pcov22u = curve_fit(P2_P2, times, amps, bounds=bounds_two,
-            p0 = p02u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+            popt22l, pcov22l = curve_fit(partial(P2_P2, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02l, maxfev = np.inf)#, sigma = 0.1*amps)
+            popt22u, pcov22u = curve_fit(partial(P2_P2, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02u, maxfev = np.inf)#, sigma = 0.1*amps)
         except:
             warnings.warn('curve_fit failed')
             return None
-- 
2.43.0


From 4121e3b2e351580b0bdb83a9c069efa3bc9324a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:05 +0000
Subject: [PATCH 77/88] fix: tpump_analysis takes schemes with different
 numbers of frames

---
 corgidrp/pump_trap_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/pump_trap_calibration.py b/corgidrp/pump_trap_calibration.py
index d73ed4b..feb3a21 100644
--- a/corgidrp/pump_trap_calibration.py
+++ b/corgidrp/pump_trap_calibration.py
@@ -2320,7 +2320,7 @@ def tpump_analysis(input_dataset,time_head = 'TPTAU',
         #Sort the things so that Scheme 1 is first
         sch_order = np.argsort(sch_list)
         sch_list = np.array(sch_list)[sch_order]
-        scheme_datasets = np.array(scheme_datasets)[sch_order]
+        scheme_datasets = [scheme_datasets[k] for k in sch_order]
         scheme_num_pumps = np.array(scheme_num_pumps)[sch_order]
 
         #Make a check to make sure that one of the schemes is Scheme 1
@@ -2344,7 +2344,7 @@ def tpump_analysis(input_dataset,time_head = 'TPTAU',
             #Grab the number of pumps associated with this scheme. 
             num_pumps = scheme_num_pumps[(sch_list == curr_sch)][0]
             
-            for frame in scheme_datasets[(sch_list == curr_sch),:][0]:
+            for frame in scheme_datasets[np.argmax(sch_list == curr_sch)]:
 
                 #Get the data and the phase time - convert from us to seconds
                 phase_time = float(frame.ext_hdr[time_head])/10**6
-- 
2.43.0


From 45b0f70ce02eaa51bd30c0ddafbd428065042c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:36 +0000
Subject: [PATCH 78/88] fix: illumination_correction with bins bigger than the
 image

---
 corgidrp/pump_trap_calibration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/corgidrp/pump_trap_calibration.py b/corgidrp/pump_trap_calibration.py
index feb3a21..7a46751 100644
--- a/corgidrp/pump_trap_calibration.py
+++ b/corgidrp/pump_trap_calibration.py
@@ -225,6 +225,8 @@ def illumination_correction(img, binsize, ill_corr):
         corrected_img = img - loc_ill
 
     if ill_corr and (binsize is not None):
+        # a bin cannot be bigger than the image
+        binsize = min(binsize, len(img), len(img[0]))
         # ensures there is a bin that runs all the way to the end
         if np.mod(len(img), binsize) == 0:
             row_bins = np.arange(0, len(img)+1, binsize)
-- 
2.43.0


From 85dc19aa8044b3158f89e6402d309488cfc57352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:04 +0000
Subject: [PATCH 79/88] fix: fit the constant terms of the distortion too

---
 corgidrp/astrom.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 4e1cfc0..238c6a1 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -605,6 +605,9 @@ def fit_distortion_solution(params, fitorder, platescale, rotangle, pos1, meas_o
     leg_params_x = leg_params_x / 500**(total_orders)  # making the coefficients sufficiently large for fitting (or else ~0)
     leg_params_y = leg_params_y / 500**(total_orders)
 
+    # the constant terms cancel in offsets between stars: keep rounding errors from driving them away from their initial guess
+    leg_params_x[0,0] = leg_params_y[0,0] = 0.
+
     residuals = []
 
     binary_offsets = np.copy(meas_offset).T
-- 
2.43.0


From 5fcc28661e6cfba1d93aa58d80d4276750939f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:04 +0000
Subject: [PATCH 80/88] fix: position errors that are not finite do not make
 the distortion fit undefined

---
 corgidrp/astrom.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 238c6a1..011b10c 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -949,8 +949,9 @@ def format_distortion_inputs(input_dataset, source_matches, ref_star_pos, positi
             pas = np.append(pas, true_pa)
     
             if type(position_error) == type(None):
-                xerrs = np.append(xerrs, xfit_err)
-                yerrs = np.append(yerrs, yfit_err)
+                # an infinite error (no covariance from the fit) would give the star no weight at all
+                xerrs = np.append(xerrs, xfit_err if np.isfinite(xfit_err) else 1.)
+                yerrs = np.append(yerrs, yfit_err if np.isfinite(yfit_err) else 1.)
             else:
                 xerrs = np.append(xerrs, position_error)
                 yerrs = np.append(yerrs, position_error)
-- 
2.43.0


From 034a46b9872063c27066b9ced62a2915047133b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:04 +0000
Subject: [PATCH 81/88] fix: find the distortion from the frames the stars were
 found in

---
 corgidrp/astrom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 011b10c..4cf057d 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -1147,7 +1147,7 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
     # compute the distortion map coeffs
     if find_distortion:
         # use the found matches for distortion
-        first_stars, offsets, true_offsets, errs = format_distortion_inputs(input_dataset, source_matches=hold_matches, ref_star_pos=target_coord_tables, position_error=position_error)
+        first_stars, offsets, true_offsets, errs = format_distortion_inputs(dataset, source_matches=hold_matches, ref_star_pos=target_coord_tables, position_error=position_error)
         mean_xy_platescale = np.mean([avg_platescale_x, avg_platescale_y])
         distortion_coeffs, order = compute_distortion(input_dataset, first_stars, offsets, true_offsets, errs, platescale=mean_xy_platescale, northangle=avg_northangle, fitorder=fitorder, initial_guess=initial_dist_guess)
     else:
-- 
2.43.0


From 8ee51c87190ac28c61968b999ca1d2cce807aa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:04 +0000
Subject: [PATCH 82/88] fix: check all the arrays of a processing step before
 anything is changed

---
 corgidrp/data.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 0d0ecf4..89fdd64 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -116,20 +116,24 @@ class Dataset():
             new_all_dq (np.array): (optional) Array of new dq. Needs to be the same shape as `all_dq`
             header_entries (dict): (optional) a dictionary {} of ext_hdr and err_hdr entries to add or update
         """
+        # check all the inputs before anything is changed, so that a refused update leaves the dataset as it was
+        if new_all_data is not None and new_all_data.shape != self.all_data.shape:
+            raise ValueError("The shape of new_all_data is {0}, whereas we are expecting {1}".format(new_all_data.shape, self.all_data.shape))
+        if new_all_err is not None:
+            # only the number of error layers (second dimension) may be different
+            if new_all_err.ndim != self.all_err.ndim or new_all_err.shape[:1] + new_all_err.shape[2:] != self.all_err.shape[:1] + self.all_err.shape[2:]:
+                raise ValueError("The shape of new_all_err is {0}, whereas we are expecting {1}".format(new_all_err.shape, self.all_err.shape))
+        if new_all_dq is not None and new_all_dq.shape != self.all_dq.shape:
+            raise ValueError("The shape of new_all_dq is {0}, whereas we are expecting {1}".format(new_all_dq.shape, self.all_dq.shape))
+
         # update data if necessary
         if new_all_data is not None:
-            if new_all_data.shape != self.all_data.shape:
-                raise ValueError("The shape of new_all_data is {0}, whereas we are expecting {1}".format(new_all_data.shape, self.all_data.shape))
             self.all_data[:] = new_all_data # specific operation overwrites the existing data rather than changing pointers
         if new_all_err is not None:
-            if new_all_err.shape[-2:] != self.all_err.shape[-2:] or new_all_err.shape[0] != self.all_err.shape[0]:
-                raise ValueError("The shape of new_all_err is {0}, whereas we are expecting {1}".format(new_all_err.shape, self.all_err.shape))
             self.all_err = new_all_err
             for i in range(len(self.frames)):
                 self.frames[i].err = self.all_err[i]
         if new_all_dq is not None:
-            if new_all_dq.shape != self.all_dq.shape:
-                raise ValueError("The shape of new_all_dq is {0}, whereas we are expecting {1}".format(new_all_dq.shape, self.all_dq.shape))
             self.all_dq[:] = new_all_dq # specific operation overwrites the existing data rather than changing pointers
 
         # update history and header entries
-- 
2.43.0


From 0f5be771236dfac52fcac931fb5c01c3df2f12d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:04 +0000
Subject: [PATCH 83/88] fix: refuse error terms for another number of frames

---
 corgidrp/data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 89fdd64..41222b6 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -173,6 +173,8 @@ class Dataset():
           err_name (str): name of the uncertainty layer
         """
         if input_error.ndim == self.all_data.ndim:
+            if len(input_error) != len(self.frames):
+                raise ValueError("input_error has layers for {0} frames, whereas there are {1}".format(len(input_error), len(self.frames)))
             for i,frame in enumerate(self.frames):
                 frame.add_error_term(input_error[i], err_name)
 
@@ -198,6 +200,8 @@ class Dataset():
           err_name (str): name of the uncertainty layer
         """
         if input_error.ndim == 3:
+            if len(input_error) != len(self.frames):
+                raise ValueError("input_error has layers for {0} frames, whereas there are {1}".format(len(input_error), len(self.frames)))
             for i,frame in enumerate(self.frames):
                 frame.rescale_error(input_error[i], err_name)
 
-- 
2.43.0


From 18ce7e3f5d68527e272392391f3711aba50e9d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:04 +0000
Subject: [PATCH 84/88] fix: ERR and DQ extensions of a file are dropped when
 they are given anew

---
 corgidrp/data.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 41222b6..d02ccfd 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -324,6 +324,8 @@ class Image():
                         self.err = err
                     else:
                         self.err = err.reshape((1,)+err.shape)
+                    if "ERR" in self.hdu_names:
+                        hdulist.pop("ERR") # superseded
                 elif "ERR" in self.hdu_names:
                     err_hdu = hdulist.pop("ERR")
                     self.err = err_hdu.data
@@ -337,6 +339,8 @@ class Image():
                     if np.shape(self.data) != np.shape(dq):
                         raise ValueError("The shape of dq is {0} while we are expecting shape {1}".format(dq.shape, self.data.shape))
                     self.dq = dq
+                    if "DQ" in self.hdu_names:
+                        hdulist.pop("DQ") # superseded
                 
                 elif "DQ" in self.hdu_names:
                     dq_hdu = hdulist.pop("DQ")
@@ -352,7 +356,8 @@ class Image():
                     #After the data, err and dqs are popped out, the rest of the hdulist is stored in hdu_list
                     this_hdu_list = [hdu.copy() for hdu in hdulist]
                 self.hdu_list = fits.HDUList(this_hdu_list)
-                
+                #The extensions of this frame, which always has err and dq
+                self.hdu_names = ["ERR", "DQ"] + [hdu.name for hdu in self.hdu_list]
 
             # parse the filepath to store the filedir and filename
             filepath_args = data_or_filepath.split(os.path.sep)
-- 
2.43.0


From 044a1a047997c271c82a47918cb60171ce8d640e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:04 +0000
Subject: [PATCH 85/88] fix: refuse uncertainties with more than one extra axis

---
 corgidrp/data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index d02ccfd..215fa27 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -317,8 +317,8 @@ class Image():
 
                 # we assume that if the err and dq array is given as parameter they supersede eventual err and dq extensions
                 if err is not None:
-                    if np.shape(self.data) != np.shape(err)[-self.data.ndim:]:
-                        raise ValueError("The shape of err is {0} while we are expecting shape {1}".format(err.shape[-self.data.ndim:], self.data.shape))
+                    if np.shape(self.data) != np.shape(err)[-self.data.ndim:] or np.ndim(err) > self.data.ndim + 1:
+                        raise ValueError("The shape of err is {0} while we are expecting shape {1}".format(err.shape, self.data.shape))
                     #we want to have an extra dimension in the error array
                     if err.ndim == self.data.ndim+1:
                         self.err = err
@@ -383,8 +383,8 @@ class Image():
             # self.hdu_names = [hdu.name for hdu in self.hdu_list]
 
             if err is not None:
-                if np.shape(self.data) != np.shape(err)[-self.data.ndim:]:
-                    raise ValueError("The shape of err is {0} while we are expecting shape {1}".format(err.shape[-self.data.ndim:], self.data.shape))
+                if np.shape(self.data) != np.shape(err)[-self.data.ndim:] or np.ndim(err) > self.data.ndim + 1:
+                    raise ValueError("The shape of err is {0} while we are expecting shape {1}".format(err.shape, self.data.shape))
                 #we want to have a 3 dim error array
                 if err.ndim == self.data.ndim + 1:
                     self.err = err
-- 
2.43.0


From 6a041feffc556cbd4cecb4c846355348475f1290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:04 +0000
Subject: [PATCH 86/88] fix: images with several error layers can be made
 without tracking their names

---
 corgidrp/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 215fa27..2d1d325 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -440,7 +440,7 @@ class Image():
             num_errs = self.err.shape[0] - 1
             # delete keywords specifying the error of each individual slice
             for i in range(num_errs):
-                del self.err_hdr['Layer_{0}'.format(i + 2)]
+                self.err_hdr.remove('Layer_{0}'.format(i + 2), ignore_missing=True)
             self.err = self.err[:1] # only save the total err, preserve 3-D shape
         self.err_hdr['TRK_ERRS'] = corgidrp.track_individual_errors # specify whether we are tracing errors
 
-- 
2.43.0


From 279b6e0dae09096c0f17652837ae16cef9deb10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:10 +0000
Subject: [PATCH 87/88] fix: a calibration named by a path containing the word
 automatic is kept in recipes

---
 corgidrp/walker.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index 5e93053..f5d2111 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -207,7 +207,9 @@ def _fill_in_calib_files(step, this_caldb, ref_frame):
         if step["calibs"][calib] is None:
             continue # it was already decided that this step runs without this calibration
 
-        if "AUTOMATIC" in step["calibs"][calib].upper():
+        # comma-separated options, unless it is the path of a calibration file
+        options = [option.strip() for option in step["calibs"][calib].upper().split(",")]
+        if "AUTOMATIC" in options:
             calib_dtype = data.datatypes[calib]
 
             # try to look up the best calibration, but it could raise an error
@@ -215,7 +217,7 @@ def _fill_in_calib_files(step, this_caldb, ref_frame):
                 best_cal_file = this_caldb.get_calib(ref_frame, calib_dtype)
                 best_cal_filepath = best_cal_file.filepath
             except ValueError as e:
-                if "OPTIONAL" in step["calibs"][calib].upper():
+                if "OPTIONAL" in options:
                     # couldn't find a good cal but this one is optional, so we are going to put nothing in there
                     # this means the step function can run without this calibration file
                     best_cal_filepath = None
-- 
2.43.0


From 88259cd6f1857d1ae3c4ec1cb0838b24a12521b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:47 +0000
Subject: [PATCH 88/88] fix: on-sky flats of smaller frames are padded to 1024
 pixels, not beyond

---
 corgidrp/flat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/flat.py b/corgidrp/flat.py
index bf0a027..0c2b863 100644
--- a/corgidrp/flat.py
+++ b/corgidrp/flat.py
@@ -206,7 +206,7 @@ def create_onsky_flatfield(dataset, planet=None,band=None,up_radius=55,im_size=N
         im_size = dataset[0].data.shape[0]
 
     if n_pad is None:
-        n_pad = 1024 - im_size
+        n_pad = (1024 - im_size) // 2 # on each side
         if n_pad < 0:
             n_pad = 0 
 
-- 
2.43.0

