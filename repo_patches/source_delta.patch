From a4894eccbb95491cf0642c8e26ca12f055236bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:49 +0000
Subject: [PATCH 01/39] fix: MAD kept image and block size in module globals
 shared by concurrent calls

---
 src/viqa/fr_metrics/mad.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/viqa/fr_metrics/mad.py b/src/viqa/fr_metrics/mad.py
index 8443af2..545f9eb 100644
--- a/src/viqa/fr_metrics/mad.py
+++ b/src/viqa/fr_metrics/mad.py
@@ -53,12 +53,6 @@ from viqa.utils import (
     gabor_convolve,
 )
 
-# Global preinitialized variables
-M = 0
-N = 0
-BLOCK_SIZE = 0
-STRIDE = 0
-
 
 class MAD(FullReferenceMetricsInterface):
     """Class to calculate the most apparent distortion (MAD) between two images.
@@ -493,10 +487,7 @@ def most_apparent_distortion(
     # No License attached to the original code.
     # Permission to use the code was granted by Eric Larson.
 
-    # Set global variables
-    global M, N
     M, N = img_r.shape
-    global BLOCK_SIZE, STRIDE
     if block_size > M or block_size > N:
         raise ValueError("block_size must be smaller than the image dimensions.")
     elif block_size > 0:
@@ -524,9 +515,18 @@ def most_apparent_distortion(
             )
 
     # Hiqh quality index
-    d_detect = _high_quality(img_r, img_m, data_range=data_range, **kwargs)
+    d_detect = _high_quality(
+        img_r,
+        img_m,
+        data_range=data_range,
+        block_size=BLOCK_SIZE,
+        stride=STRIDE,
+        **kwargs,
+    )
     # Low quality index
-    d_appear = _low_quality(img_r, img_m, **kwargs)
+    d_appear = _low_quality(
+        img_r, img_m, block_size=BLOCK_SIZE, stride=STRIDE, **kwargs
+    )
 
     # Combine single metrics with weighting
     alpha = 1 / (1 + beta_1 * d_detect**beta_2)  # weighting factor
@@ -569,6 +569,9 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     # No License attached to the original code.
     # Permission to use the code was granted by Eric Larson.
 
+    M, N = img_r.shape
+    BLOCK_SIZE = kwargs.pop("block_size", 16)
+    STRIDE = kwargs.pop("stride", 4)
     account_monitor = kwargs.pop("account_monitor", False)
     # Account for display function of monitor
     if account_monitor:
@@ -737,6 +740,9 @@ def _low_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     # No License attached to the original code.
     # Permission to use the code was granted by Eric Larson.
 
+    M, N = img_r.shape
+    BLOCK_SIZE = kwargs.pop("block_size", 16)
+    STRIDE = kwargs.pop("stride", 4)
     orientations_num = kwargs.pop("orientations_num", 4)
     scales_num = kwargs.pop("scales_num", 5)
     weights = kwargs.pop("weights", [0.5, 0.75, 1, 5, 6])
-- 
2.43.0


From 3cee3887c495e2a6a1fe9f91ed6ec16564b30023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:49 +0000
Subject: [PATCH 02/39] fix: MAD normalised the caller's weights array in place

---
 src/viqa/fr_metrics/mad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/fr_metrics/mad.py b/src/viqa/fr_metrics/mad.py
index 545f9eb..754c9eb 100644
--- a/src/viqa/fr_metrics/mad.py
+++ b/src/viqa/fr_metrics/mad.py
@@ -746,7 +746,7 @@ def _low_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     orientations_num = kwargs.pop("orientations_num", 4)
     scales_num = kwargs.pop("scales_num", 5)
     weights = kwargs.pop("weights", [0.5, 0.75, 1, 5, 6])
-    weights /= np.sum(weights)
+    weights = np.asarray(weights) / np.sum(weights)
     if len(weights) != scales_num:
         raise ValueError(f"weights must be of length scales_num ({scales_num}).")
 
-- 
2.43.0


From af58b854cd90bb68c925e1bf2f11ff3b10686b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:24 +0000
Subject: [PATCH 03/39] fix: native block statistics read and wrote outside
 non-square or strided images

---
 .../fr_metrics/stat_utils/statisticsmodule.c  | 38 +++++++++++++------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index e89af3d..ac3d88f 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -63,13 +63,20 @@ static PyObject
         return NULL;
     }
     if (NULL == matin) return NULL;
+    if (PyArray_NDIM(matin) != 2 || istride < 1 || istride > iblocksize) {
+        PyErr_SetString(PyExc_ValueError, "image must be 2D and stride between 1 and blocksize");
+        return NULL;
+    }
+    // The loops below need contiguous rows of doubles
+    matin=(PyArrayObject *) PyArray_FROM_OTF((PyObject *) matin, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
+    if (NULL == matin) return NULL;
     // Get dimensions of input array
     n = dims[0] = matin->dimensions[0];
     m = dims[1] = matin->dimensions[1];
 
     // Create output arrays
-    matout=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
-    tmp=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
+    matout=(PyArrayObject *) PyArray_ZEROS(2, dims, NPY_DOUBLE, 0);
+    tmp=(PyArrayObject *) PyArray_ZEROS(2, dims, NPY_DOUBLE, 0);
 
     // Convert input and output arrays to C pointers
     tmp_data=pymatrix_to_Carrayptrs(tmp);
@@ -77,8 +84,8 @@ static PyObject
     cout=pymatrix_to_Carrayptrs(matout);
 
     // For each area of size istride x istride, calculate the standard deviation
-    for (i = 0; i < m-(iblocksize-1); i += istride) {
-        for (j = 0; j < n-(iblocksize-1); j += istride) {
+    for (i = 0; i < n-(iblocksize-1); i += istride) {
+        for (j = 0; j < m-(iblocksize-1); j += istride) {
             // Calculate the mean for each block
             mean = 0;
             for (u = i; u < i+iblocksize; u++) {
@@ -108,8 +115,8 @@ static PyObject
     }
 
     // Calculate minimum standard deviation for each area
-    for (i = 0; i < m-(iblocksize-1); i += istride) {
-        for (j = 0; j < n-(iblocksize-1); j += istride) {
+    for (i = 0; i < n-(iblocksize-1); i += istride) {
+        for (j = 0; j < m-(iblocksize-1); j += istride) {
             // Look for minimum standard deviation in blocks of size istride x istride
             val = tmp_data[i][j];
             for (u = i; u < (iblocksize/2); u += (istride+1)) {
@@ -131,6 +138,7 @@ static PyObject
     }
 
     // Free memory
+    Py_DECREF(matin);
     free_Carrayptrs(cin);
     free_Carrayptrs(cout);
     free_Carrayptrs(tmp_data);
@@ -153,15 +161,22 @@ static PyObject
         return NULL;
     }
     if (NULL == matin) return NULL;
+    if (PyArray_NDIM(matin) != 2 || istride < 1 || istride > iblocksize) {
+        PyErr_SetString(PyExc_ValueError, "image must be 2D and stride between 1 and blocksize");
+        return NULL;
+    }
+    // The loops below need contiguous rows of doubles
+    matin=(PyArrayObject *) PyArray_FROM_OTF((PyObject *) matin, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
+    if (NULL == matin) return NULL;
 
     // Get dimensions of input array
     n = dims[0] = matin->dimensions[0];
     m = dims[1] = matin->dimensions[1];
 
     // Create output arrays
-    stdevout=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
-    skwout=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
-    krtout=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
+    stdevout=(PyArrayObject *) PyArray_ZEROS(2, dims, NPY_DOUBLE, 0);
+    skwout=(PyArrayObject *) PyArray_ZEROS(2, dims, NPY_DOUBLE, 0);
+    krtout=(PyArrayObject *) PyArray_ZEROS(2, dims, NPY_DOUBLE, 0);
 
     // Convert input and output arrays to C pointers
     cin=pymatrix_to_Carrayptrs(matin);
@@ -170,8 +185,8 @@ static PyObject
     krt_data=pymatrix_to_Carrayptrs(krtout);
 
     // For each area of size istride x istride, calculate the standard deviation, skewness and kurtosis
-    for (i = 0; i < m-(iblocksize-1); i += istride) {
-        for (j = 0; j < n-(iblocksize-1); j += istride) {
+    for (i = 0; i < n-(iblocksize-1); i += istride) {
+        for (j = 0; j < m-(iblocksize-1); j += istride) {
             // Calculate the mean for each block
             mean = 0;
             for (u=i; u<i+iblocksize; u++) {
@@ -220,6 +235,7 @@ static PyObject
     }
 
     // Free memory
+    Py_DECREF(matin);
     free_Carrayptrs(cin);
     free_Carrayptrs(stdev_data);
     free_Carrayptrs(skw_data);
-- 
2.43.0


From 61374458e5c6d8e15e8eab8ec5ccfc6f28acfff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:24 +0000
Subject: [PATCH 04/39] fix: native block statistics exited the process on
 failed allocation and leaked arrays

---
 .../fr_metrics/stat_utils/statisticsmodule.c  | 29 +++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index ac3d88f..2ea07c4 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -82,6 +82,15 @@ static PyObject
     tmp_data=pymatrix_to_Carrayptrs(tmp);
     cin=pymatrix_to_Carrayptrs(matin);
     cout=pymatrix_to_Carrayptrs(matout);
+    if (!tmp_data || !cin || !cout) {
+        free_Carrayptrs(cin);
+        free_Carrayptrs(cout);
+        free_Carrayptrs(tmp_data);
+        Py_DECREF(matin);
+        Py_XDECREF(matout);
+        Py_XDECREF(tmp);
+        return PyErr_NoMemory();
+    }
 
     // For each area of size istride x istride, calculate the standard deviation
     for (i = 0; i < n-(iblocksize-1); i += istride) {
@@ -142,6 +151,7 @@ static PyObject
     free_Carrayptrs(cin);
     free_Carrayptrs(cout);
     free_Carrayptrs(tmp_data);
+    Py_DECREF(tmp);
 
     // Return output array
     return PyArray_Return(matout);
@@ -183,6 +193,17 @@ static PyObject
     stdev_data=pymatrix_to_Carrayptrs(stdevout);
     skw_data=pymatrix_to_Carrayptrs(skwout);
     krt_data=pymatrix_to_Carrayptrs(krtout);
+    if (!cin || !stdev_data || !skw_data || !krt_data) {
+        free_Carrayptrs(cin);
+        free_Carrayptrs(stdev_data);
+        free_Carrayptrs(skw_data);
+        free_Carrayptrs(krt_data);
+        Py_DECREF(matin);
+        Py_XDECREF(stdevout);
+        Py_XDECREF(skwout);
+        Py_XDECREF(krtout);
+        return PyErr_NoMemory();
+    }
 
     // For each area of size istride x istride, calculate the standard deviation, skewness and kurtosis
     for (i = 0; i < n-(iblocksize-1); i += istride) {
@@ -242,7 +263,7 @@ static PyObject
     free_Carrayptrs(krt_data);
 
     // Return output arrays as Python tuple
-    return PyTuple_Pack(3, stdevout, skwout, krtout);
+    return Py_BuildValue("(NNN)", stdevout, skwout, krtout);
 }
 
 /*
@@ -257,9 +278,11 @@ double
     double **c, *a;
     int i,n,m;
 
+    if (!arrayin) return NULL;
     n = arrayin->dimensions[0];
     m = arrayin->dimensions[1];
     c = ptrvector(n);
+    if (!c) return NULL;
     a = (double *) arrayin->data; /* pointer to arrayin data as double */
     for (i = 0; i < n; i++) {
         c[i] = a + i*m;
@@ -272,10 +295,6 @@ double
 {
     double **v;
     v = (double **)malloc((size_t) (n*sizeof(double *)));
-    if (!v) {
-        printf("In **ptrvector. Allocation of memory for double array failed.");
-        exit(0);
-    }
     return v;
 }
 
-- 
2.43.0


From 8c0f6d69c97e81d776a1d812c93817dba21faf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:06 +0000
Subject: [PATCH 05/39] fix: batch reused scores of the previous pair across
 different ROIs and reference sizes

---
 src/viqa/multiple.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/viqa/multiple.py b/src/viqa/multiple.py
index a516f35..86f1820 100644
--- a/src/viqa/multiple.py
+++ b/src/viqa/multiple.py
@@ -51,6 +51,7 @@ import os
 from abc import ABC, abstractmethod
 from warnings import warn
 
+import numpy as np
 from tqdm.autonotebook import tqdm
 
 from viqa._metrics import Metric
@@ -255,11 +256,21 @@ class BatchMetrics(_MultipleInterface):
         modified_img = None
         prev_mod_path = None
         metric_results = None
+        prev_roi = None
+        prev_layout = None
         for pair_num, pair in enumerate(tqdm(self.pairs)):
             reference_path = os.path.join(self.file_dir, pair["reference_image"])
             modified_path = os.path.join(self.file_dir, pair["modified_image"])
+            if self.global_roi is None and self.rois is not None:
+                roi = self.rois[pair_num]
+            same_roi = np.array_equal(roi, prev_roi)
+            prev_roi = roi
             # Skip calculation if the images are the same as in the previous pair
-            if reference_path == prev_ref_path and modified_path == prev_mod_path:
+            if (
+                same_roi
+                and reference_path == prev_ref_path
+                and modified_path == prev_mod_path
+            ):
                 self.results[str(pair_num)] = metric_results
                 warn("Skipping calculation for identical image pair.", UserWarning)
                 continue
@@ -269,16 +280,18 @@ class BatchMetrics(_MultipleInterface):
                 prev_ref_path = reference_path
                 prev_result_reference = None
             else:
-                prev_result_reference = metric_results
+                prev_result_reference = metric_results if same_roi else None
+            # The modified image is scaled to the size and type of the reference image
+            layout = (reference_img.shape, reference_img.dtype)
             if modified_path != prev_mod_path:
                 modified_img = load_data(modified_path, **kwargs)
                 prev_mod_path = modified_path
                 prev_result_modified = None
-            else:
+            elif same_roi and layout == prev_layout:
                 prev_result_modified = metric_results
-
-            if self.global_roi is None and self.rois is not None:
-                roi = self.rois[pair_num]
+            else:
+                prev_result_modified = None
+            prev_layout = layout
 
             metric_results = _calc(
                 self.metrics,
-- 
2.43.0


From 2f0587c1db6ce0bc5c7880d3eefb79c81fc3722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:06 +0000
Subject: [PATCH 06/39] fix: recalculating a batch mixed new rows into the
 results of the previous calculation

---
 src/viqa/multiple.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/viqa/multiple.py b/src/viqa/multiple.py
index 86f1820..fae7627 100644
--- a/src/viqa/multiple.py
+++ b/src/viqa/multiple.py
@@ -251,6 +251,8 @@ class BatchMetrics(_MultipleInterface):
                 UserWarning,
             )
         scaling_order = kwargs.pop("scaling_order", 1)
+        # Do not add to or overwrite the results of an earlier calculation
+        self.results = {}
         reference_img = None
         prev_ref_path = None
         modified_img = None
-- 
2.43.0


From c31aed34362fe02819cfc90af912e69eeee3d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:06 +0000
Subject: [PATCH 07/39] fix: exporting a batch without results emptied an
 existing file before failing

---
 src/viqa/multiple.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/viqa/multiple.py b/src/viqa/multiple.py
index fae7627..b934661 100644
--- a/src/viqa/multiple.py
+++ b/src/viqa/multiple.py
@@ -412,15 +412,16 @@ class BatchMetrics(_MultipleInterface):
                 f"The file name {file_name} must have the extension '.csv'."
             )
         path = os.path.join(file_path, file_name)
+        header = (
+            ["pair_num"]
+            + ["reference_image"]
+            + ["modified_image"]
+            + list(self.results[str(0)].keys())
+        )
         with open(path, mode="w", newline="") as csvfile:
             writer = csv.writer(csvfile)
             # Write header
-            writer.writerow(
-                ["pair_num"]
-                + ["reference_image"]
-                + ["modified_image"]
-                + list(self.results[str(0)].keys())
-            )
+            writer.writerow(header)
             # Write data
             for pair_num, results in self.results.items():
                 writer.writerow(
-- 
2.43.0


From 57604a0ae17cc4fb1c81696b1eb08a0da563d950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:06 +0000
Subject: [PATCH 08/39] fix: export_results overwrote missing scores with a
 string and left their rows out

---
 src/viqa/utils/export.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/viqa/utils/export.py b/src/viqa/utils/export.py
index e2d0dd9..cfc2865 100644
--- a/src/viqa/utils/export.py
+++ b/src/viqa/utils/export.py
@@ -94,11 +94,9 @@ def export_results(metrics, output_path, filename, return_dict=False):
         writer = csv.writer(f)
         writer.writerow(["Metric", "Value"])
         for metric in metrics:
-            if metric.score_val is None:
-                metric.score_val = "n/a"
-            else:
-                writer.writerow([metric._name, metric.score_val])
-            results_dict[metric._name] = metric.score_val
+            value = "n/a" if metric.score_val is None else metric.score_val
+            writer.writerow([metric._name, value])
+            results_dict[metric._name] = value
     if return_dict:
         return results_dict
 
-- 
2.43.0


From ab313564d6cf43d59460496efd3ec63f8222bef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:24 +0000
Subject: [PATCH 09/39] fix: export_metadata truncated an existing file before
 checking its arguments

---
 src/viqa/utils/export.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/viqa/utils/export.py b/src/viqa/utils/export.py
index cfc2865..49b78e9 100644
--- a/src/viqa/utils/export.py
+++ b/src/viqa/utils/export.py
@@ -39,6 +39,7 @@ Examples
 # BSD-3-Clause License
 
 import csv
+import io
 import os
 from datetime import datetime
 from importlib.metadata import version
@@ -128,7 +129,8 @@ def export_metadata(metrics, metrics_parameters, file_path, file_name="metadata.
     if os.path.splitext(file_name)[1] != ".txt":
         raise ValueError(f"The file name {file_name} must have the extension '.txt'.")
     path = os.path.join(file_path, file_name)
-    with open(path, mode="w") as txtfile:
+    # Compose the text first to keep an existing file if the arguments are invalid
+    with io.StringIO() as txtfile:
         txtfile.write("vIQA_version: " + version("viqa") + "\n")
         txtfile.write("Time: " + datetime.today().strftime("%Y-%m-%d %H:%M:%S"))
         txtfile.write("\n")
@@ -145,6 +147,9 @@ def export_metadata(metrics, metrics_parameters, file_path, file_name="metadata.
                 txtfile.write(key + ": " + str(value))
                 txtfile.write("\n")
             txtfile.write("\n")
+        text = txtfile.getvalue()
+    with open(path, mode="w") as file:
+        file.write(text)
 
 
 def export_image(
-- 
2.43.0


From 193cf9c89d06b55be3b7c0fb46df30c6fe62e15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:24 +0000
Subject: [PATCH 10/39] fix: every image exported without display left a figure
 open

---
 src/viqa/utils/export.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/viqa/utils/export.py b/src/viqa/utils/export.py
index 49b78e9..523db16 100644
--- a/src/viqa/utils/export.py
+++ b/src/viqa/utils/export.py
@@ -254,7 +254,28 @@ def export_image(
     else:
         raise ValueError("Image must be 2D or 3D")
 
+    # Check if filename has the correct extension
+    if os.path.splitext(file_name)[1] != ".png":
+        raise ValueError(f"The file name {file_name} must have the extension '.png'.")
+
     fig, axs = plt.subplots(1, 2, dpi=dpi, **kwargs)
+    try:
+        _plot_comparison(fig, axs, img_r_plot, img_m_plot, results)
+        if file_path:
+            file_path = os.path.join(file_path, file_name)
+            fig.savefig(file_path, bbox_inches="tight", pad_inches=0.5)
+    except BaseException:
+        plt.close(fig)
+        raise
+    if show_image or not file_path:
+        plt.show()
+    else:
+        # Nobody is going to see or close the figure
+        plt.close(fig)
+
+
+def _plot_comparison(fig, axs, img_r_plot, img_m_plot, results):
+    """Draw both images and the metric values on the figure."""
     axs[0].imshow(img_r_plot, cmap="gray")
     axs[0].invert_yaxis()
     axs[1].imshow(img_m_plot, cmap="gray")
@@ -307,15 +328,3 @@ def export_image(
 
     axs[0].axis("off")
     axs[1].axis("off")
-
-    # Check if filename has the correct extension
-    if os.path.splitext(file_name)[1] != ".png":
-        raise ValueError(f"The file name {file_name} must have the extension '.png'.")
-
-    if file_path:
-        file_path = os.path.join(file_path, file_name)
-        plt.savefig(file_path, bbox_inches="tight", pad_inches=0.5)
-        if show_image:
-            plt.show()
-    else:
-        plt.show()
-- 
2.43.0


From 11db7face1ab189701f55c3fd6cff32b2726c64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:37 +0000
Subject: [PATCH 11/39] fix: visualisations were exported after showing them,
 when the figure may be gone

---
 src/viqa/utils/visualization.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index 6af9c00..6c0b1eb 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -116,10 +116,10 @@ def _visualize_cnr_2d(
     if patch_2:
         axs[1].add_patch(patch_2)
 
-    if show:
-        plt.show()
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    if show:
+        plt.show()
 
 
 def _visualize_cnr_3d(
@@ -333,10 +333,10 @@ def _visualize_cnr_3d(
     if patch_6:
         axs[1][2].add_patch(patch_6)
 
-    if show:
-        plt.show()
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    if show:
+        plt.show()
 
 
 def _visualize_snr_2d(
@@ -407,10 +407,10 @@ def _visualize_snr_2d(
     if patch:
         ax.add_patch(patch)
 
-    if show:
-        plt.show()
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    if show:
+        plt.show()
 
 
 def _visualize_snr_3d(
@@ -566,10 +566,10 @@ def _visualize_snr_3d(
     if patch_3:
         axs[2].add_patch(patch_3)
 
-    if show:
-        plt.show()
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    if show:
+        plt.show()
 
 
 def _create_slider_widget(**kwargs):
@@ -631,9 +631,9 @@ def visualize_2d(img, export_path=None, **kwargs):
     plt.xlabel("x")
     plt.ylabel("y")
     plt.gca().invert_yaxis()
-    plt.show()
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    plt.show()
 
 
 def visualize_3d(img, slices, export_path=None, **kwargs):
@@ -711,6 +711,6 @@ def visualize_3d(img, slices, export_path=None, **kwargs):
     axs[2].axvline(x=x, color="#1b9e77", linestyle="--")
     axs[2].set_title(f"z-axis, slice: {z}", c="#7570b3")
 
-    plt.show()
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    plt.show()
-- 
2.43.0


From cf271352eefe2a9cace4da8a2c9b2f1791fa9e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:37 +0000
Subject: [PATCH 12/39] fix: CNR centre visualisation always failed for lack of
 a region type

---
 src/viqa/utils/visualization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index 6c0b1eb..9244485 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -46,7 +46,7 @@ def _visualize_cnr_2d(
     signal_center,
     background_center,
     radius,
-    region_type,
+    region_type="cubic",
     export_path=None,
     show=True,
     **kwargs,
@@ -127,7 +127,7 @@ def _visualize_cnr_3d(
     signal_center,
     background_center,
     radius,
-    region_type,
+    region_type="cubic",
     export_path=None,
     show=True,
     **kwargs,
-- 
2.43.0


From c0e581ed8105e01244faeb67110aeb6b1ca1a2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:51 +0000
Subject: [PATCH 13/39] fix: SNR scored grayscale images as a tuple and had no
 name, unusable in batches and exports

---
 src/viqa/nr_metrics/snr.py | 26 ++------------------------
 1 file changed, 2 insertions(+), 24 deletions(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 9b54718..0cb812f 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -106,6 +106,7 @@ class SNR(NoReferenceMetricsInterface):
         super().__init__(
             data_range=data_range, normalize=normalize, name=name, **kwargs
         )
+        self._name = name
 
     def score(self, img, **kwargs):
         """Calculate the signal-to-noise ratio (SNR) for an image.
@@ -1098,27 +1099,4 @@ def signal_to_noise_ratio(
     else:
         snr_val = np.mean(signal) / np.std(signal)
 
-    parameters = {}
-    match region_type:
-        case "full" if auto_center:
-            parameters.update(
-                {
-                    "iterations": iterations,
-                    "lower_threshold": lower_threshold,
-                    "upper_threshold": upper_threshold,
-                }
-            )
-        case "full" if not auto_center:
-            region_type = "original"
-        case "original":
-            pass
-        case _:
-            parameters.update(
-                {
-                    "signal_center": signal_center,
-                    "radius": radius,
-                }
-            )
-    parameters.update({"region_type": region_type, "signal": signal})
-
-    return np.float64(snr_val), parameters
+    return np.float64(snr_val)
-- 
2.43.0


From b7b6f389851fbcbb35d598c17d603d645101f4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:51 +0000
Subject: [PATCH 14/39] fix: a failed SNR or CNR score replaced the remembered
 parameters

---
 src/viqa/nr_metrics/cnr.py | 4 ++--
 src/viqa/nr_metrics/snr.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 430095f..dfdc051 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -134,10 +134,10 @@ class CNR(NoReferenceMetricsInterface):
             kwargs["background_center"] = self.parameters["background_center"]
             kwargs["radius"] = self.parameters["radius"]
 
+        score_val = contrast_to_noise_ratio(img, **kwargs)
+
         # write kwargs to .parameters attribute
         self.parameters.update(kwargs)
-
-        score_val = contrast_to_noise_ratio(img, **kwargs)
         self.score_val = score_val
         return score_val
 
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 0cb812f..94ecb46 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -141,10 +141,10 @@ class SNR(NoReferenceMetricsInterface):
         # TODO: Write standard params of signal to noise ratio to .parameters attribute
         #  if not already done
 
+        score_val = signal_to_noise_ratio(img, **kwargs)
+
         # write kwargs to .parameters attribute
         self.parameters.update(kwargs)
-
-        score_val = signal_to_noise_ratio(img, **kwargs)
         self.score_val = score_val
         return score_val
 
-- 
2.43.0


From 6c49a74cdf1cd9a1bb80926b4b18b0a073520d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:51 +0000
Subject: [PATCH 15/39] fix: SNR and CNR applied the loading options of one
 score call to all later calls

---
 src/viqa/nr_metrics/cnr.py | 5 +++--
 src/viqa/nr_metrics/snr.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index dfdc051..d83f01c 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -136,8 +136,9 @@ class CNR(NoReferenceMetricsInterface):
 
         score_val = contrast_to_noise_ratio(img, **kwargs)
 
-        # write kwargs to .parameters attribute
-        self.parameters.update(kwargs)
+        # write kwargs to .parameters attribute, except those for this data loading
+        loading = {"data_range", "normalize", "batch", "roi"}
+        self.parameters.update({k: v for k, v in kwargs.items() if k not in loading})
         self.score_val = score_val
         return score_val
 
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 94ecb46..877e6a5 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -143,8 +143,9 @@ class SNR(NoReferenceMetricsInterface):
 
         score_val = signal_to_noise_ratio(img, **kwargs)
 
-        # write kwargs to .parameters attribute
-        self.parameters.update(kwargs)
+        # write kwargs to .parameters attribute, except those for this data loading
+        loading = {"data_range", "normalize", "batch", "roi"}
+        self.parameters.update({k: v for k, v in kwargs.items() if k not in loading})
         self.score_val = score_val
         return score_val
 
-- 
2.43.0


From 7e7167f9a5f7e67ddb05231feede816fc9d33868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:17 +0000
Subject: [PATCH 16/39] fix: open centre selectors shared module globals and
 saved each others values

---
 src/viqa/nr_metrics/cnr.py | 14 +++++++-------
 src/viqa/nr_metrics/snr.py | 26 ++++++++++++--------------
 2 files changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index d83f01c..ee8836b 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -58,10 +58,6 @@ from viqa.utils._module import check_interactive_vis_deps, is_ipython, try_impor
 widgets, has_ipywidgets = try_import("ipywidgets")
 display, has_ipython = try_import("IPython.display", "display")
 
-glob_signal_center = ()
-glob_background_center = ()
-glob_radius = None
-
 FIGSIZE_CNR_2D_ = tuple(f"{val}in" for val in FIGSIZE_CNR_2D)
 FIGSIZE_CNR_3D_ = tuple(f"{val}in" for val in FIGSIZE_CNR_3D)
 
@@ -333,6 +329,11 @@ class CNR(NoReferenceMetricsInterface):
 
         # Prepare visualization functions and widgets
 
+        # Values shown by the widgets of this very selector
+        glob_signal_center = ()
+        glob_background_center = ()
+        glob_radius = None
+
         # Define output layout
         def _output_layout(out, figsize_variable):
             figsize = kwargs.get("figsize", figsize_variable)
@@ -345,7 +346,7 @@ class CNR(NoReferenceMetricsInterface):
 
         # Define function to save values from global variables to .parameters attribute
         def _save_values(_):
-            global glob_signal_center, glob_background_center, glob_radius
+            nonlocal glob_signal_center, glob_background_center, glob_radius
             self.parameters.update(
                 {
                     "signal_center": glob_signal_center,
@@ -357,7 +358,7 @@ class CNR(NoReferenceMetricsInterface):
         # Define function to save values to global variables
         def _write_values_to_global(signal_value, background_value, radius_value):
             # Set global variables
-            global glob_signal_center, glob_background_center, glob_radius
+            nonlocal glob_signal_center, glob_background_center, glob_radius
             glob_signal_center = signal_value
             glob_background_center = background_value
             glob_radius = radius_value
@@ -432,7 +433,6 @@ class CNR(NoReferenceMetricsInterface):
 
         _write_values_to_global(signal_start, background_start, radius_start)
 
-        global glob_signal_center, glob_background_center, glob_radius
         # Check if background_center and signal_center are the right shape for 2d and 3d
         if img.ndim != len(glob_signal_center) or img.ndim != len(
             glob_background_center
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 877e6a5..ee59216 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -58,14 +58,6 @@ from viqa.utils._module import check_interactive_vis_deps, is_ipython, try_impor
 widgets, has_ipywidgets = try_import("ipywidgets")
 display, has_ipython = try_import("IPython.display", "display")
 
-glob_signal_center = ()
-glob_radius = None
-glob_region_type = None
-glob_iterations = None
-glob_lower_threshold = None
-glob_upper_threshold = None
-glob_signal = None
-
 
 class SNR(NoReferenceMetricsInterface):
     """Class to calculate the signal-to-noise ratio (SNR) for an image.
@@ -393,6 +385,15 @@ class SNR(NoReferenceMetricsInterface):
 
         # Prepare visualization functions and widgets
 
+        # Values shown by the widgets of this very selector
+        glob_signal_center = ()
+        glob_radius = None
+        glob_region_type = None
+        glob_iterations = None
+        glob_lower_threshold = None
+        glob_upper_threshold = None
+        glob_signal = None
+
         # Define output layout
         def _output_layout(out, figsize):
             figsize = list(vis_kwargs.get("figsize", figsize))
@@ -407,7 +408,7 @@ class SNR(NoReferenceMetricsInterface):
 
         # Define function to save values from global variables to .parameters attribute
         def _save_values(_):
-            global \
+            nonlocal \
                 glob_signal, \
                 glob_signal_center, \
                 glob_radius, \
@@ -456,7 +457,7 @@ class SNR(NoReferenceMetricsInterface):
 
         # Calculate region
         def _calculate_region(_):
-            global \
+            nonlocal \
                 glob_region_type, \
                 glob_signal, \
                 glob_iterations, \
@@ -486,7 +487,7 @@ class SNR(NoReferenceMetricsInterface):
         # Define function to save values to global variables
         def _write_values_to_global(signal_value, radius_value, region_type):
             # Set global variables
-            global glob_signal_center, glob_radius, glob_region_type
+            nonlocal glob_signal_center, glob_radius, glob_region_type
             glob_signal_center = signal_value
             glob_radius = radius_value
             glob_region_type = region_type
@@ -504,7 +505,6 @@ class SNR(NoReferenceMetricsInterface):
 
             _write_values_to_global(signal_center, radius, region_type)
 
-            global glob_signal
             _visualize_snr_2d(
                 img=img,
                 signal_center=signal_center,
@@ -531,7 +531,6 @@ class SNR(NoReferenceMetricsInterface):
 
             _write_values_to_global(signal_center, radius, region_type)
 
-            global glob_signal
             _visualize_snr_3d(
                 img=img,
                 signal_center=signal_center,
@@ -593,7 +592,6 @@ class SNR(NoReferenceMetricsInterface):
 
         _write_values_to_global(signal_start, radius_start, region_type_start)
 
-        global glob_signal_center, glob_radius, glob_region_type
         # Check if background_center and signal_center are the right shape for 2d and 3d
         if len(glob_signal_center) != img.ndim:
             raise ValueError("Signal center has to be in the same dimension as img.")
-- 
2.43.0


From 18db23915f1879bab72ebdf44f75d35bcad1be48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:17 +0000
Subject: [PATCH 17/39] fix: moving the radius slider failed and left the value
 to be saved stale

---
 src/viqa/nr_metrics/cnr.py | 2 +-
 src/viqa/nr_metrics/snr.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index ee8836b..40efa28 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -453,7 +453,7 @@ class CNR(NoReferenceMetricsInterface):
 
         # Create slider for radius
         slider_radius = _create_slider_widget(
-            max=min(img.shape) // 2,
+            max=(min(img.shape) - 2) // 2,
             min=1,
             value=radius_start,
             description="Radius",
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index ee59216..92c7acd 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -625,7 +625,7 @@ class SNR(NoReferenceMetricsInterface):
 
         # Create slider for radius
         slider_radius = _create_slider_widget(
-            max=min(img.shape) // 2,
+            max=(min(img.shape) - 2) // 2,
             min=1,
             value=radius_start,
             description="Radius",
@@ -664,7 +664,7 @@ class SNR(NoReferenceMetricsInterface):
             try:
                 slider_signal_center_z.min = change.new + 1
                 slider_signal_center_z.max = img.shape[2] - (change.new + 1)
-            except NameError:
+            except AttributeError:
                 pass
 
         slider_radius.observe(_update_values, "value")
-- 
2.43.0


From 95944b875aafb34f5c9aae9eebcfcaa009e9b1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:17 +0000
Subject: [PATCH 18/39] fix: stack and pair-list tools took files in directory
 order

---
 src/scripts/combine_stack.py | 2 +-
 src/scripts/write_to_csv.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scripts/combine_stack.py b/src/scripts/combine_stack.py
index c6184d3..37490b3 100644
--- a/src/scripts/combine_stack.py
+++ b/src/scripts/combine_stack.py
@@ -27,7 +27,7 @@ from viqa.utils.loading import _load_binary, _parse_bitdepth
 
 def combine_image_stack(input_path, size, bitdepth, file_type="raw"):
     """Combine a stack of single images to a volume."""
-    files = glob.glob(os.path.join(input_path, f"*.{file_type}"))
+    files = sorted(glob.glob(os.path.join(input_path, f"*.{file_type}")))
     data_type = _parse_bitdepth(bitdepth)
 
     if len(files) != 0:
diff --git a/src/scripts/write_to_csv.py b/src/scripts/write_to_csv.py
index 1228d99..7541443 100644
--- a/src/scripts/write_to_csv.py
+++ b/src/scripts/write_to_csv.py
@@ -32,10 +32,10 @@ def write_to_csv(path_modified, path_reference, path_csv, copy=False):
     with open(os.path.join(path_csv, "pairs.csv"), mode="w", newline="") as file:
         writer = csv.writer(file)
         writer.writerow(["reference_image", "modified_image"])
-        for file_reference in glob.glob(path_reference):
+        for file_reference in sorted(glob.glob(path_reference)):
             filename_reference = os.path.basename(file_reference)
             img_ref_name = filename_reference.split(".")[0]
-            for file_modified in glob.glob(path_modified):
+            for file_modified in sorted(glob.glob(path_modified)):
                 filename_modified = os.path.basename(file_modified)
                 img_mod_name = filename_modified[:3]
                 if img_ref_name == img_mod_name:
-- 
2.43.0


From 89b8314feb9355b07b979037ec7042b93fd859e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:50 +0000
Subject: [PATCH 19/39] fix: pair-list tool could not copy into an existing
 output folder

The images folder was only created together with the output folder, so a run
interrupted between both (or without copy) made every later copy run fail.
---
 src/scripts/write_to_csv.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/scripts/write_to_csv.py b/src/scripts/write_to_csv.py
index 7541443..5f64bd3 100644
--- a/src/scripts/write_to_csv.py
+++ b/src/scripts/write_to_csv.py
@@ -25,10 +25,9 @@ import sys
 
 def write_to_csv(path_modified, path_reference, path_csv, copy=False):
     """Write pairs of reference and modified images to a CSV file."""
-    if not os.path.exists(path_csv):
-        os.makedirs(path_csv)
-        if copy:
-            os.makedirs(os.path.join(path_csv, "images"))
+    os.makedirs(path_csv, exist_ok=True)
+    if copy:
+        os.makedirs(os.path.join(path_csv, "images"), exist_ok=True)
     with open(os.path.join(path_csv, "pairs.csv"), mode="w", newline="") as file:
         writer = csv.writer(file)
         writer.writerow(["reference_image", "modified_image"])
-- 
2.43.0


From 5deb08296ea8fec6b6e71cd1fd2466ef9c5fe156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:50 +0000
Subject: [PATCH 20/39] fix: pair-list tool kept truncated copies left by an
 interrupted run

---
 src/scripts/write_to_csv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/scripts/write_to_csv.py b/src/scripts/write_to_csv.py
index 5f64bd3..b8b172e 100644
--- a/src/scripts/write_to_csv.py
+++ b/src/scripts/write_to_csv.py
@@ -53,7 +53,10 @@ def write_to_csv(path_modified, path_reference, path_csv, copy=False):
 def copy_file(origin_path, destination_path):
     """Copy a file if it does not exist at the destination."""
     if not os.path.isfile(destination_path):
-        shutil.copyfile(origin_path, destination_path)
+        # copy under a temporary name, an interrupted copy must not pass as complete
+        partial_path = destination_path + ".part"
+        shutil.copyfile(origin_path, partial_path)
+        os.replace(partial_path, destination_path)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 4f158824bdd4c4161b4c4ff79527f0ee6a5d29c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:50 +0000
Subject: [PATCH 21/39] fix: pair-list tool failed without the optional copy
 argument

---
 src/scripts/write_to_csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/write_to_csv.py b/src/scripts/write_to_csv.py
index b8b172e..feefa43 100644
--- a/src/scripts/write_to_csv.py
+++ b/src/scripts/write_to_csv.py
@@ -64,7 +64,7 @@ if __name__ == "__main__":
         path_modified = sys.argv[1]
         path_reference = sys.argv[2]
         path_csv = sys.argv[3]
-        if sys.argv[4] == "copy":
+        if len(sys.argv) > 4 and sys.argv[4] == "copy":
             copy = True
             print(
                 f"Copying images from {path_modified} and {path_reference} "
-- 
2.43.0


From 56ed6af8e5c9ba71d57407af56c0ac6751ffb915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:50 +0000
Subject: [PATCH 22/39] fix: cropping scrambled volumes with different x and y
 size

---
 src/scripts/crop_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/crop_image.py b/src/scripts/crop_image.py
index 967a369..24518cc 100644
--- a/src/scripts/crop_image.py
+++ b/src/scripts/crop_image.py
@@ -46,7 +46,7 @@ def load_volume(file, size, bitdepth):
     slices = []
     for i in range(size[2]):
         slice = vol[i * size[0] * size[1] : (i + 1) * size[0] * size[1]]
-        slice = slice.reshape(size[0], size[1])
+        slice = slice.reshape(size[1], size[0])
         slices.append(slice)
     return np.stack(slices, axis=0)
 
-- 
2.43.0


From 0612d397e0da5a5d5cc4ec5ffc5609e09dd2741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:50 +0000
Subject: [PATCH 23/39] fix: combined stack was written transposed and under a
 wrong size

The loaded images have the axes (x, y, z) while save_volume expects (z, y, x).
---
 src/scripts/combine_stack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scripts/combine_stack.py b/src/scripts/combine_stack.py
index 37490b3..f8e21bf 100644
--- a/src/scripts/combine_stack.py
+++ b/src/scripts/combine_stack.py
@@ -33,9 +33,9 @@ def combine_image_stack(input_path, size, bitdepth, file_type="raw"):
     if len(files) != 0:
         vol = []
         for file in files:
-            vol.append(_load_binary(file, data_type, size))
+            vol.append(_load_binary(file, data_type, size).T)
 
-        vol = np.array(vol)
+        vol = np.concatenate(vol, axis=0)
         return vol
 
 
-- 
2.43.0


From b9be0a12f98d64a800bec5f70bace04ce455e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:50 +0000
Subject: [PATCH 24/39] fix: volume tools reported success when the end of the
 output could not be written

ndarray.tofile ignores errors on closing the file, where buffered data is
written.
---
 src/scripts/combine_stack.py      | 10 +++++-----
 src/scripts/crop_image.py         |  3 ++-
 src/scripts/reduce_projections.py |  3 ++-
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/scripts/combine_stack.py b/src/scripts/combine_stack.py
index f8e21bf..2870ef0 100644
--- a/src/scripts/combine_stack.py
+++ b/src/scripts/combine_stack.py
@@ -47,12 +47,12 @@ def save_volume(output_path, vol, bitdepth, file_type="raw"):
     vol_shape = vol.shape
     vol = vol.astype(data_type)
     # save volume
-    vol.tofile(
-        os.path.join(
-            output_path,
-            f"volume_{vol_shape[2]}x{vol_shape[1]}x{vol_shape[0]}_{bitdepth}.{file_type}",
-        )
+    output = os.path.join(
+        output_path,
+        f"volume_{vol_shape[2]}x{vol_shape[1]}x{vol_shape[0]}_{bitdepth}.{file_type}",
     )
+    with open(output, mode="wb") as file:
+        file.write(vol.tobytes())
 
 
 if __name__ == "__main__":
diff --git a/src/scripts/crop_image.py b/src/scripts/crop_image.py
index 24518cc..a511a4f 100644
--- a/src/scripts/crop_image.py
+++ b/src/scripts/crop_image.py
@@ -79,7 +79,8 @@ def save_volume(output_folder, file_name, volume, bitdepth):
     data_type = _parse_bitdepth(bitdepth)
     volume = volume.astype(data_type)
     # save volume
-    volume.tofile(output)
+    with open(output, mode="wb") as file:
+        file.write(volume.tobytes())
 
 
 if __name__ == "__main__":
diff --git a/src/scripts/reduce_projections.py b/src/scripts/reduce_projections.py
index bf41956..4e7cbd8 100644
--- a/src/scripts/reduce_projections.py
+++ b/src/scripts/reduce_projections.py
@@ -68,7 +68,8 @@ def save_volume(output, vol, bitdepth):
     data_type = _parse_bitdepth(bitdepth)
     vol = vol.astype(data_type)
     # save volume
-    vol.tofile(output)
+    with open(output, mode="wb") as file:
+        file.write(vol.tobytes())
 
 
 if __name__ == "__main__":
-- 
2.43.0


From bb4ca890cc2a6a8c4c27fb2db0e72382acda26d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:10 +0000
Subject: [PATCH 25/39] fix: loading a volume returned uninitialized values
 when reading failed

np.fromfile without a count ignores short reads and returns the unread part
uninitialized. Request one value more than needed, so that failing reads and too
large files are both detected by the existing size check.
---
 src/viqa/utils/loading.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index ba93da4..7108d1f 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -591,12 +591,14 @@ def load_nifti(file_path: str | os.PathLike) -> np.ndarray:
 
 def _load_binary(data_file_path, data_type, dim_size):
     # Load data
+    size = int(np.prod(np.array(dim_size).astype(np.int64)))
     with open(file=data_file_path, mode="rb") as f:  # Open data file
-        img_arr_orig = np.fromfile(
-            file=f, dtype=data_type
-        )  # Read data file into numpy array according to data type
+        # Read data file into numpy array according to data type. Without a count
+        # numpy does not report failing reads but returns uninitialized values; one
+        # more value than needed is requested to detect too large files.
+        img_arr_orig = np.fromfile(file=f, dtype=data_type, count=size + 1)
 
-    if img_arr_orig.size != np.prod(np.array(dim_size).astype(np.int64)):
+    if img_arr_orig.size != size:
         raise ValueError(
             "Size of data file ("
             + data_file_path
-- 
2.43.0


From e57ceabeb9aa07b9fa1b97c06272e80eed837297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:10 +0000
Subject: [PATCH 26/39] fix: volume tools used uninitialized values when
 reading failed

---
 src/scripts/crop_image.py         | 10 ++++++----
 src/scripts/reduce_projections.py | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/scripts/crop_image.py b/src/scripts/crop_image.py
index a511a4f..4c74903 100644
--- a/src/scripts/crop_image.py
+++ b/src/scripts/crop_image.py
@@ -29,12 +29,14 @@ def load_volume(file, size, bitdepth):
     """Load projection images from a binary file."""
     data_type = _parse_bitdepth(bitdepth)
     # Load data
+    n_values = int(np.prod(np.array(size).astype(np.int64)))
     with open(file=file, mode="rb") as f:  # Open data file
-        vol = np.fromfile(
-            file=f, dtype=data_type
-        )  # Read data file into numpy array according to data type
+        # Read data file into numpy array according to data type. Without a count
+        # numpy does not report failing reads but returns uninitialized values; one
+        # more value than needed is requested to detect too large files.
+        vol = np.fromfile(file=f, dtype=data_type, count=n_values + 1)
 
-    if vol.size != np.prod(np.array(size).astype(np.int64)):
+    if vol.size != n_values:
         raise ValueError(
             "Size of data file ("
             + file
diff --git a/src/scripts/reduce_projections.py b/src/scripts/reduce_projections.py
index 4e7cbd8..138859a 100644
--- a/src/scripts/reduce_projections.py
+++ b/src/scripts/reduce_projections.py
@@ -28,12 +28,14 @@ def load_projection(file, size, bitdepth):
     """Load projection images from a binary file."""
     data_type = _parse_bitdepth(bitdepth)
     # Load data
+    n_values = int(np.prod(np.array(size).astype(np.int64)))
     with open(file=file, mode="rb") as f:  # Open data file
-        vol = np.fromfile(
-            file=f, dtype=data_type
-        )  # Read data file into numpy array according to data type
+        # Read data file into numpy array according to data type. Without a count
+        # numpy does not report failing reads but returns uninitialized values; one
+        # more value than needed is requested to detect too large files.
+        vol = np.fromfile(file=f, dtype=data_type, count=n_values + 1)
 
-    if vol.size != np.prod(np.array(size).astype(np.int64)):
+    if vol.size != n_values:
         raise ValueError(
             "Size of data file ("
             + file
-- 
2.43.0


From 3d3031d61cc553de2fd1a330f2a2a6a8f10dbdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:25 +0000
Subject: [PATCH 27/39] fix: images loaded from double precision NIfTI files
 changed together with the file

---
 src/viqa/utils/loading.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 7108d1f..b25c510 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -584,7 +584,8 @@ def load_nifti(file_path: str | os.PathLike) -> np.ndarray:
     -----
     This function wraps the nibabel function :py:func:`nibabel.loadsave.load`.
     """
-    img = nib.load(file_path)
+    # Not memory mapped, the image must not change together with the file
+    img = nib.load(file_path, mmap=False)
     img_arr = img.get_fdata()  # type: ignore[attr-defined]
     return img_arr
 
-- 
2.43.0


From 2d04998e913d139388ade97bc828295d070353eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:07 +0000
Subject: [PATCH 28/39] fix: export_results emptied an existing file before
 failing on an invalid metric

---
 src/viqa/utils/export.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/viqa/utils/export.py b/src/viqa/utils/export.py
index 523db16..8758d2f 100644
--- a/src/viqa/utils/export.py
+++ b/src/viqa/utils/export.py
@@ -88,16 +88,18 @@ def export_results(metrics, output_path, filename, return_dict=False):
     # Check if filename has the correct extension
     if not filename.lower().endswith(".csv"):
         filename += ".csv"
-    results_dict = {}
+    # Collect all values before an existing file is overwritten
+    rows = [
+        [metric._name, "n/a" if metric.score_val is None else metric.score_val]
+        for metric in metrics
+    ]
+    results_dict = dict(rows)
     # Create file path
     file_path = os.path.join(output_path, filename)
     with open(file_path, mode="w", newline="") as f:  # Open file
         writer = csv.writer(f)
         writer.writerow(["Metric", "Value"])
-        for metric in metrics:
-            value = "n/a" if metric.score_val is None else metric.score_val
-            writer.writerow([metric._name, value])
-            results_dict[metric._name] = value
+        writer.writerows(rows)
     if return_dict:
         return results_dict
 
-- 
2.43.0


From c0b8cbdfdfd1b8313de116e1fccdb381632f271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:17 +0000
Subject: [PATCH 29/39] fix: combine_stack reports a folder that can not be
 listed completely

---
 src/scripts/combine_stack.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/scripts/combine_stack.py b/src/scripts/combine_stack.py
index 2870ef0..a354256 100644
--- a/src/scripts/combine_stack.py
+++ b/src/scripts/combine_stack.py
@@ -16,7 +16,6 @@
 # -------
 # BSD-3-Clause License
 
-import glob
 import os
 import sys
 
@@ -27,7 +26,12 @@ from viqa.utils.loading import _load_binary, _parse_bitdepth
 
 def combine_image_stack(input_path, size, bitdepth, file_type="raw"):
     """Combine a stack of single images to a volume."""
-    files = sorted(glob.glob(os.path.join(input_path, f"*.{file_type}")))
+    # os.listdir raises if the folder can not be read completely, glob does not
+    files = sorted(
+        os.path.join(input_path, file)
+        for file in os.listdir(input_path)
+        if file.endswith(f".{file_type}") and not file.startswith(".")
+    )
     data_type = _parse_bitdepth(bitdepth)
 
     if len(files) != 0:
-- 
2.43.0


From 3cc74b32b296185af4525afa172d3b75545e4978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:17 +0000
Subject: [PATCH 30/39] fix: write_to_csv reports a folder that can not be
 listed completely

---
 src/scripts/write_to_csv.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/scripts/write_to_csv.py b/src/scripts/write_to_csv.py
index feefa43..0717165 100644
--- a/src/scripts/write_to_csv.py
+++ b/src/scripts/write_to_csv.py
@@ -17,12 +17,20 @@
 # BSD-3-Clause License
 
 import csv
-import glob
+import fnmatch
 import os
 import shutil
 import sys
 
 
+def list_files(path):
+    """List the files matching a path whose last component may contain wildcards."""
+    folder, pattern = os.path.split(path)
+    # os.listdir raises if the folder can not be read completely, glob does not
+    names = [name for name in os.listdir(folder or ".") if not name.startswith(".")]
+    return sorted(os.path.join(folder, name) for name in fnmatch.filter(names, pattern))
+
+
 def write_to_csv(path_modified, path_reference, path_csv, copy=False):
     """Write pairs of reference and modified images to a CSV file."""
     os.makedirs(path_csv, exist_ok=True)
@@ -31,10 +39,10 @@ def write_to_csv(path_modified, path_reference, path_csv, copy=False):
     with open(os.path.join(path_csv, "pairs.csv"), mode="w", newline="") as file:
         writer = csv.writer(file)
         writer.writerow(["reference_image", "modified_image"])
-        for file_reference in sorted(glob.glob(path_reference)):
+        for file_reference in list_files(path_reference):
             filename_reference = os.path.basename(file_reference)
             img_ref_name = filename_reference.split(".")[0]
-            for file_modified in sorted(glob.glob(path_modified)):
+            for file_modified in list_files(path_modified):
                 filename_modified = os.path.basename(file_modified)
                 img_mod_name = filename_modified[:3]
                 if img_ref_name == img_mod_name:
-- 
2.43.0


From 30067ca3be493e9c7abd1a88cd223dbbca2109e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 31/39] fix: SNR centre selector could not be opened again
 after a save

---
 src/viqa/nr_metrics/snr.py | 57 ++++++++++----------------------------
 1 file changed, 14 insertions(+), 43 deletions(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 92c7acd..3ab019d 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -546,49 +546,20 @@ class SNR(NoReferenceMetricsInterface):
 
         center_point = tuple(val // 2 for val in img.shape)
 
-        # Check if starting parameters are provided
-        if "signal_center" not in kwargs.keys():
-            try:
-                signal_start = self.parameters["signal_center"]
-            except KeyError:
-                signal_start = center_point
-        else:
-            signal_start = kwargs.pop("signal_center")
-        if "radius" not in kwargs.keys():
-            try:
-                radius_start = self.parameters["radius"]
-            except KeyError:
-                radius_start = 1
-        else:
-            radius_start = kwargs.pop("radius")
-        if "region_type" not in kwargs.keys():
-            try:
-                region_type_start = self.parameters["region_type"]
-            except KeyError:
-                region_type_start = "cubic"
-        else:
-            region_type_start = kwargs.pop("region_type")
-        if "iterations" not in kwargs.keys():
-            try:
-                iterations_start = self.parameters["iterations"]
-            except KeyError:
-                iterations_start = 2
-        else:
-            iterations_start = kwargs.pop("iterations")
-        if "lower_threshold" not in kwargs.keys():
-            try:
-                lower_threshold_start = self.parameters["lower_threshold"]
-            except KeyError:
-                lower_threshold_start = 90
-        else:
-            lower_threshold_start = kwargs.pop("lower_threshold")
-        if "upper_threshold" not in kwargs.keys():
-            try:
-                upper_threshold_start = self.parameters["upper_threshold"]
-            except KeyError:
-                upper_threshold_start = 99
-        else:
-            upper_threshold_start = kwargs.pop("upper_threshold")
+        # Check if starting parameters are provided. Saving sets the parameters which do
+        # not apply to None, they are not starting parameters
+        def _start_value(key, default):
+            value = kwargs.pop(key, None)
+            if value is None:
+                value = self.parameters.get(key)
+            return default if value is None else value
+
+        signal_start = _start_value("signal_center", center_point)
+        radius_start = _start_value("radius", 1)
+        region_type_start = _start_value("region_type", "cubic")
+        iterations_start = _start_value("iterations", 2)
+        lower_threshold_start = _start_value("lower_threshold", 90)
+        upper_threshold_start = _start_value("upper_threshold", 99)
 
         _write_values_to_global(signal_start, radius_start, region_type_start)
 
-- 
2.43.0


From 9e2d97aec44c792b5ce131193087051a1df49279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 32/39] fix: reopened CNR centre selector could not draw with
 given starting points

---
 src/viqa/nr_metrics/cnr.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 40efa28..d24ffa1 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -420,16 +420,15 @@ class CNR(NoReferenceMetricsInterface):
 
         center_point = tuple(val // 2 for val in img.shape)
         # Check if background_center and signal_center are provided
+        background_start = kwargs.pop("background_center", center_point)
+        signal_start = kwargs.pop("signal_center", center_point)
+        radius_start = kwargs.pop("radius", 1)
         if {"background_center", "signal_center", "radius"}.issubset(
             self.parameters.keys()
         ):
             background_start = self.parameters["background_center"]
             signal_start = self.parameters["signal_center"]
             radius_start = self.parameters["radius"]
-        else:
-            background_start = kwargs.pop("background_center", center_point)
-            signal_start = kwargs.pop("signal_center", center_point)
-            radius_start = kwargs.pop("radius", 1)
 
         _write_values_to_global(signal_start, background_start, radius_start)
 
-- 
2.43.0


From 390e9ffc2d1bd45f44d968964db8a95cf707efe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:26 +0000
Subject: [PATCH 33/39] fix: arrays derived from an image took over its
 statistics

---
 src/viqa/utils/loading.py | 42 +++++++++++----------------------------
 1 file changed, 12 insertions(+), 30 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index b25c510..f22b3a7 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -126,36 +126,18 @@ class ImageArray(np.ndarray):
         obj : object
             Object to finalize
         """
-        if obj is None:
-            return
-        # Add attributes
-        self.mean_value = getattr(
-            obj, "mean_value", "Not set. Run calculate_statistics() first."
-        )
-        self.median = getattr(
-            obj, "median", "Not set. Run calculate_statistics() first."
-        )
-        self.variance = getattr(
-            obj, "variance", "Not set. Run calculate_statistics() first."
-        )
-        self.standarddev = getattr(
-            obj, "standarddev", "Not set. Run calculate_statistics() first."
-        )
-        self.skewness = getattr(
-            obj, "skewness", "Not set. Run calculate_statistics() first."
-        )
-        self.kurtosis = getattr(
-            obj, "kurtosis", "Not set. Run calculate_statistics() first."
-        )
-        self.histogram = getattr(
-            obj, "histogram", "Not set. Run calculate_statistics() first."
-        )
-        self.minimum = getattr(
-            obj, "minimum", "Not set. Run calculate_statistics() first."
-        )
-        self.maximum = getattr(
-            obj, "maximum", "Not set. Run calculate_statistics() first."
-        )
+        # Add attributes. Statistics of the array this one is derived from are not taken
+        # over, because they do not describe its values.
+        not_set = "Not set. Run calculate_statistics() first."
+        self.mean_value = not_set
+        self.median = not_set
+        self.variance = not_set
+        self.standarddev = not_set
+        self.skewness = not_set
+        self.kurtosis = not_set
+        self.histogram = not_set
+        self.minimum = not_set
+        self.maximum = not_set
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         """Make sure that an ImageArray is returned when a ufunc operation is performed
-- 
2.43.0


From 2e576f58a91d4fe34707165a7f711409d33561eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:26 +0000
Subject: [PATCH 34/39] fix: histogram of integer images was calculated but not
 stored

---
 src/viqa/utils/loading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index f22b3a7..1433e8c 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -200,7 +200,7 @@ class ImageArray(np.ndarray):
         self.skewness = skew(self.view(), axis=None)
         self.kurtosis = kurtosis(self.view(), axis=None)
         if self.view().dtype.kind in ["u", "i"]:
-            self.view().histogram = np.histogram(
+            self.histogram = np.histogram(
                 self.view(), bins=np.iinfo(self.view().dtype).max
             )
         else:
-- 
2.43.0


From 55c8552550691b34f7f7cf67354759542e1486fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:26 +0000
Subject: [PATCH 35/39] fix: failing statistics calculation left a mixture of
 old and new statistics

---
 src/viqa/utils/loading.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 1433e8c..f5f1bdf 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -192,21 +192,23 @@ class ImageArray(np.ndarray):
             * minimum
             * maximum
         """
-        # Add attributes
-        self.mean_value = np.mean(self)
-        self.median = np.median(self.view())
-        self.variance = np.var(self.view())
-        self.standarddev = np.std(self.view())
-        self.skewness = skew(self.view(), axis=None)
-        self.kurtosis = kurtosis(self.view(), axis=None)
         if self.view().dtype.kind in ["u", "i"]:
-            self.histogram = np.histogram(
-                self.view(), bins=np.iinfo(self.view().dtype).max
-            )
+            bins = np.iinfo(self.view().dtype).max
         else:
-            self.histogram = np.histogram(self.view(), bins=255)
-        self.minimum = np.min(self.view())
-        self.maximum = np.max(self.view())
+            bins = 255
+        # Add attributes all at once, so that a failing calculation leaves no mixture of
+        # new and old statistics
+        vars(self).update(
+            mean_value=np.mean(self),
+            median=np.median(self.view()),
+            variance=np.var(self.view()),
+            standarddev=np.std(self.view()),
+            skewness=skew(self.view(), axis=None),
+            kurtosis=kurtosis(self.view(), axis=None),
+            histogram=np.histogram(self.view(), bins=bins),
+            minimum=np.min(self.view()),
+            maximum=np.max(self.view()),
+        )
 
     def describe(
         self,
-- 
2.43.0


From d64b23327b670e38941cb95299388bf2a38b8e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:19 +0000
Subject: [PATCH 36/39] fix: byte order stated in the .mhd header was ignored

---
 src/viqa/utils/loading.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index f5f1bdf..860cb29 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -45,6 +45,7 @@ import csv
 import glob
 import os
 import re
+import sys
 from typing import Any, Tuple, Union
 from warnings import warn
 
@@ -452,6 +453,13 @@ def load_mhd(file_dir: str | os.PathLike, file_name: str | os.PathLike) -> np.nd
         )  # Raise exception if the bit depth is not supported
 
     img_arr = _load_binary(data_file_path, data_type, dim_size)
+    # Check byte order of the stored values
+    if "True" in (
+        file_header.get("BinaryDataByteOrderMSB", "False").strip(),
+        file_header.get("ElementByteOrderMSB", "False").strip(),
+    ):
+        if sys.byteorder == "little":
+            img_arr = img_arr.byteswap()
     return img_arr
 
 
-- 
2.43.0


From 23f34aaaa062c43cff350ff037bb3b01efcb76f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:56 +0000
Subject: [PATCH 37/39] fix: QMeasure read float64 and non-contiguous images as
 if they were packed float32

---
 src/viqa/nr_metrics/qmeasure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/viqa/nr_metrics/qmeasure.py b/src/viqa/nr_metrics/qmeasure.py
index 27602b3..60e62db 100644
--- a/src/viqa/nr_metrics/qmeasure.py
+++ b/src/viqa/nr_metrics/qmeasure.py
@@ -43,7 +43,6 @@ import numpy as np
 
 from viqa._metrics import NoReferenceMetricsInterface
 from viqa.nr_metrics.qmeasure_utils import qmeasurecalc
-from viqa.utils import _to_float
 
 
 class QMeasure(NoReferenceMetricsInterface):
@@ -139,8 +138,9 @@ class QMeasure(NoReferenceMetricsInterface):
                 RuntimeWarning,
             )
 
-        # Convert to float and get min and max values
-        img = _to_float(img, np.float32)
+        # Convert to float and get min and max values. The engine reads the values as
+        # 32 bit floats one after the other, so type and memory layout have to fit.
+        img = np.ascontiguousarray(img, dtype=np.float32)
         img_min = int(img.min())
         img_max = int(img.max())
 
-- 
2.43.0


From 1e2a37b72683ac9f73a4e87e8f5316a3d6c4ddde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:56 +0000
Subject: [PATCH 38/39] fix: C++ exceptions of the Q-measure engine ended the
 interpreter

---
 .../qmeasure_utils/qmeasurecalcmodule.cpp     | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/viqa/nr_metrics/qmeasure_utils/qmeasurecalcmodule.cpp b/src/viqa/nr_metrics/qmeasure_utils/qmeasurecalcmodule.cpp
index 5efc079..7ce188a 100644
--- a/src/viqa/nr_metrics/qmeasure_utils/qmeasurecalcmodule.cpp
+++ b/src/viqa/nr_metrics/qmeasure_utils/qmeasurecalcmodule.cpp
@@ -18,6 +18,8 @@
 #define PY_SSIZE_T_CLEAN
 #include <Python.h>
 #include <numpy/arrayobject.h>
+#include <exception>
+#include <new>
 #include "qmeasurecalcmodule.h"
 #include "QMeasureCalculation.h"
 
@@ -73,12 +75,20 @@ static PyObject
     // Get data from input array
     auto data = (float *) PyArray_DATA(matin);
 
-    // Call the C++ function
-    QMeasureCalculation QMeasureCalculation;
-    auto result = QMeasureCalculation.computeOrigQ(data, dims, data_range, ihistbins, inumpeaks, false);
+    // C++ exceptions must not leave this function, they would end the interpreter
+    try {
+        // Call the C++ function
+        QMeasureCalculation QMeasureCalculation;
+        auto result = QMeasureCalculation.computeOrigQ(data, dims, data_range, ihistbins, inumpeaks, false);
 
-    // Get Q value from map
-    qvalue = result["Q (orig, equ 1)"];
+        // Get Q value from map
+        qvalue = result["Q (orig, equ 1)"];
+    } catch (const std::bad_alloc &) {
+        return PyErr_NoMemory();
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return NULL;
+    }
 
     // Return output array
     return PyFloat_FromDouble(qvalue);
-- 
2.43.0


From de9868945d42870d9a0f69695a5842416dc30826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:12 +0000
Subject: [PATCH 39/39] fix: SNR.visualize_centers shows the remembered region,
 not a stale calculated one

---
 src/viqa/nr_metrics/snr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 3ab019d..2cd28f1 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -227,13 +227,14 @@ class SNR(NoReferenceMetricsInterface):
                 region_type = self.parameters["region_type"]
             except KeyError:
                 raise ValueError("No region type provided.") from None
-        if not signal:
+        # The region calculated in the interactive selection is shown for "full" only
+        if signal is None and region_type == "full":
             try:
                 signal = self._region
             except AttributeError:
                 signal = None
 
-        if signal is None and region_type not in {"full", "original"}:
+        if region_type not in {"full", "original"}:
             if not signal_center:
                 try:
                     signal_center = self.parameters["signal_center"]
-- 
2.43.0

