From bb13210f4644b47f0119401600e71d3a28a8cfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 01/25] fix: GNGD and VSLMS filters keep their own copy of the
 last input

adapt() stored a reference to the caller's input array as last_x. A caller
that reuses one measurement buffer for every sample silently changed the
remembered input, so the step-size adaptation used the current sample twice.
---
 padasip/filters/gngd.py             | 2 +-
 padasip/filters/vslms_ang.py        | 2 +-
 padasip/filters/vslms_benveniste.py | 2 +-
 padasip/filters/vslms_mathews.py    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/padasip/filters/gngd.py b/padasip/filters/gngd.py
index 3cad233..ef28304 100644
--- a/padasip/filters/gngd.py
+++ b/padasip/filters/gngd.py
@@ -90,5 +90,5 @@ class FilterGNGD(AdaptiveFilter):
                    np.dot(x, self.last_x) / \
                    (np.dot(self.last_x, self.last_x) + self.eps) ** 2
         nu = self.mu / (self.eps + np.dot(x, x))
-        self.last_e, self.last_x = e, x
+        self.last_e, self.last_x = e, np.copy(x)
         return nu * e * x
diff --git a/padasip/filters/vslms_ang.py b/padasip/filters/vslms_ang.py
index 7281328..41cd543 100644
--- a/padasip/filters/vslms_ang.py
+++ b/padasip/filters/vslms_ang.py
@@ -99,5 +99,5 @@ class FilterVSLMS_Ang(AdaptiveFilter):
         """
         fi = (self.a * self.last_fi) + (self.last_e * self.last_x)
         mu = self.last_mu + (self.ro * e * np.dot(self.last_x, fi))
-        self.last_e, self.last_mu, self.last_x, self.last_fi = e, mu, x, fi
+        self.last_e, self.last_mu, self.last_x, self.last_fi = e, mu, np.copy(x), fi
         return mu * e * x
diff --git a/padasip/filters/vslms_benveniste.py b/padasip/filters/vslms_benveniste.py
index 97a8242..e4abbdc 100644
--- a/padasip/filters/vslms_benveniste.py
+++ b/padasip/filters/vslms_benveniste.py
@@ -96,5 +96,5 @@ class FilterVSLMS_Benveniste(AdaptiveFilter):
         fi_part = np.eye(self.n) - (self.last_mu * np.outer(self.last_x, self.last_x))
         fi = np.dot(fi_part, self.last_fi) + (self.last_e * self.last_x)
         mu = self.last_mu + (self.ro * e * np.dot(self.last_x, fi))
-        self.last_e, self.last_mu, self.last_x, self.last_fi = e, mu, x, fi
+        self.last_e, self.last_mu, self.last_x, self.last_fi = e, mu, np.copy(x), fi
         return mu * e * x
diff --git a/padasip/filters/vslms_mathews.py b/padasip/filters/vslms_mathews.py
index a7e9630..c217f57 100644
--- a/padasip/filters/vslms_mathews.py
+++ b/padasip/filters/vslms_mathews.py
@@ -93,5 +93,5 @@ class FilterVSLMS_Mathews(AdaptiveFilter):
         Override the parent class.
         """
         mu = self.last_mu + (self.ro * e * self.last_e * np.dot(self.last_x, x))
-        self.last_e, self.last_mu, self.last_x = e, mu, x
+        self.last_e, self.last_mu, self.last_x = e, mu, np.copy(x)
         return mu * e * x
-- 
2.43.0


From acf4cb82590735635c7ecfe0d48f8748c9496e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 02/25] fix: FilterOCNLMS.predict no longer changes the filter
 memory

predict() advanced the memory index through read_memory(), so every extra
prediction (for example the one of the documented real-time loop) moved the
stored samples and changed all later results. The index is now moved only by
the adaptation; run() and adapt() give the same numbers as before.
---
 padasip/filters/ocnlms.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/padasip/filters/ocnlms.py b/padasip/filters/ocnlms.py
index 7e36644..145cc93 100644
--- a/padasip/filters/ocnlms.py
+++ b/padasip/filters/ocnlms.py
@@ -98,8 +98,10 @@ class FilterOCNLMS(AdaptiveFilter):
         """
         Override the parent class.
         """
+        self.shift_memory()
         self.update_memory_x(x)
         m_d, m_x = self.read_memory()
+        self.shift_memory()
         y = np.dot(self.w, x-m_x) + m_d
         self.update_memory_d(e + y)
         return self.mu / (self.eps + np.dot(x - m_x, x - m_x)) * e * (x - m_x)
@@ -157,8 +159,13 @@ class FilterOCNLMS(AdaptiveFilter):
         else:
             m_x = np.mean(self.mem_x, axis=0)
             m_d = np.mean(np.delete(self.mem_d, self.mem_idx))
+        return m_d, m_x
+
+    def shift_memory(self):
+        """
+        This function moves the memory index to the next position.
+        """
         self.mem_idx += 1
         if self.mem_idx > len(self.mem_x)-1:
             self.mem_idx = 0
             self.mem_empty = False
-        return m_d, m_x
-- 
2.43.0


From 44c6456911be18d5b89063947d82999d847b73db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 03/25] fix: a rejected run() no longer changes the size of the
 filter

run() stored the width of the given matrix in self.n before noticing that it
does not fit the weights. After such a rejected call VSLMS_Benveniste failed
on (or miscomputed) every valid sample and OCNLMS.clear_memory and
init_weights used the wrong size.
---
 padasip/filters/base_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 53a55cc..130b92d 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -191,6 +191,8 @@ class AdaptiveFilter():
         N = len(x)
         if not len(d) == N:
             raise ValueError('The length of vector d and matrix x must agree.')
+        if not len(x[0]) == len(self.w):
+            raise ValueError('The filter size and the width of matrix x must agree.')
         self.n = len(x[0])
         # prepare data
         try:
@@ -303,6 +305,8 @@ class AdaptiveFilterAP(AdaptiveFilter):
         N = len(x)
         if not len(d) == N:
             raise ValueError('The length of vector d and matrix x must agree.')
+        if not len(x[0]) == len(self.w):
+            raise ValueError('The filter size and the width of matrix x must agree.')
         self.n = len(x[0])
         # prepare data
         try:
-- 
2.43.0


From ea7a60c5fd7b6a960c628c9d220694b9062b0c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 04/25] fix: AP filter rejects a malformed sample before
 changing its memory

adapt() and run() shifted the memory of past inputs (and targets) first and
stored the new sample afterwards. A sample that could not be stored (wrong
length, non-numeric target) left the memories shifted against each other, so
every later result was wrong after the caller had handled the exception.
---
 padasip/filters/base_filter.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 130b92d..6fbb75a 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -254,6 +254,20 @@ class AdaptiveFilterAP(AdaptiveFilter):
         """
         return np.zeros(len(x_mem))
 
+    def check_sample(self, d, x):
+        """
+        Raise an exception if the sample cannot be stored in the memory,
+        so a malformed sample is rejected before the memory is changed.
+
+        **Args:**
+
+        * `d` : desired value (float)
+
+        * `x` : input array (1-dimensional array)
+        """
+        np.empty(len(self.x_mem))[:] = x
+        np.empty(1)[0] = d
+
     def adapt(self, d, x):
         """
         Adapt weights according one desired value and its input.
@@ -265,6 +279,7 @@ class AdaptiveFilterAP(AdaptiveFilter):
         * `x` : input array (1-dimensional array)
         """
         # create input matrix and target vector
+        self.check_sample(d, x)
         self.x_mem[:, 1:] = self.x_mem[:, :-1]
         self.x_mem[:, 0] = x
         self.d_mem[1:] = self.d_mem[:-1]
@@ -322,6 +337,7 @@ class AdaptiveFilterAP(AdaptiveFilter):
         for k in range(N):
             self.w_history[k, :] = self.w
             # create input matrix and target vector
+            self.check_sample(d[k], x[k])
             self.x_mem[:, 1:] = self.x_mem[:, :-1]
             self.x_mem[:, 0] = x[k]
             self.d_mem[1:] = self.d_mem[:-1]
-- 
2.43.0


From baa924add927c1673be16769c6853291eb926e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 05/25] fix: LDA visits classes in a fixed order

The classes were taken from set(labels), whose order follows the per-process
string hash seed. The order changes the rounding of the scatter matrices and
with it the sign (and, for equal discriminants, the choice) of the returned
directions, so the same call gave different results in different processes.
---
 padasip/preprocess/lda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/preprocess/lda.py b/padasip/preprocess/lda.py
index 6ec1b02..cdca01d 100644
--- a/padasip/preprocess/lda.py
+++ b/padasip/preprocess/lda.py
@@ -113,7 +113,7 @@ def LDA_base(x, labels):
       from LDA analysis
 
     """
-    classes = np.array(tuple(set(labels)))
+    classes = np.array(tuple(dict.fromkeys(labels)))
     cols = x.shape[1]
     # mean values for every class
     means = np.zeros((len(classes), cols))
-- 
2.43.0


From 4cc143c0e2b7d10acec69a62eb05596d4c5ef71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 06/25] fix: MLP backpropagation through more than one layer of
 weights

Layer.update multiplied the error by an extra (1 - y) whenever the next layer
had more than one node, and handed its already updated weights (a view) to the
layer below, so networks with several outputs or hidden layers did not follow
the gradient of the squared error.
---
 padasip/ann/mlp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index f0fa4fa..cde9ba0 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -183,9 +183,9 @@ class Layer():
             e = self.activation(self.y, f=self.f, der=True) * e * w
             dw = self.mu * np.outer(e, self.x)
         else:
-            e = self.activation(self.y, f=self.f, der=True) * (1 - self.y) * np.dot(e, w)
+            e = self.activation(self.y, f=self.f, der=True) * np.dot(e, w)
             dw = self.mu * np.outer(e, self.x)
-        w = self.w[:, 1:]
+        w = np.copy(self.w)[:, 1:]
         self.w += dw
         return w, e
 
-- 
2.43.0


From d2dcdc20adbb22d5aabb4d97b4c0b8f1d0e07ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 07/25] fix: MLP training MSE includes the last sample of the
 epoch

---
 padasip/ann/mlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index cde9ba0..a33c129 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -324,7 +324,7 @@ class NetworkMLP():
             for k in range(N):
                 self.predict(x[k])
                 e[(epoch*N)+k] = self.update(d[k])
-            MSE[epoch] = np.sum(e[epoch*N:(epoch+1)*N-1]**2) / N
+            MSE[epoch] = np.sum(e[epoch*N:(epoch+1)*N]**2) / N
         return e, MSE
 
     def run(self, x):
-- 
2.43.0


From b8e9fb8745bc8ea4655a9d107097425851c12dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 08/25] fix: MLP.train(shuffle=True) shuffles the pairs in
 every epoch

The documentation promises a different order in every epoch, but the data
were shuffled only once before the first epoch.
---
 padasip/ann/mlp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index a33c129..b5e07e6 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -313,14 +313,14 @@ class NetworkMLP():
         else:
             e = np.zeros((epochs*N, self.outputs))
         MSE = np.zeros(epochs)
-        # shuffle data if demanded
-        if shuffle:
-            randomize = np.arange(len(x))
-            np.random.shuffle(randomize)
-            x = x[randomize]
-            d = d[randomize]
         # adaptation loop
         for epoch in range(epochs):
+            # shuffle data if demanded
+            if shuffle:
+                randomize = np.arange(len(x))
+                np.random.shuffle(randomize)
+                x = x[randomize]
+                d = d[randomize]
             for k in range(N):
                 self.predict(x[k])
                 e[(epoch*N)+k] = self.update(d[k])
-- 
2.43.0


From fa98e1dea41ecfe104766e82296b902fd40b5f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 09/25] fix: FilterOCNLMS memory index is never out of range

An interruption (or a prediction from another thread) between the increment and
the wrap of the index left or saw it one past the end of the memory; predict()
and all later training then failed with IndexError.
---
 padasip/filters/ocnlms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/padasip/filters/ocnlms.py b/padasip/filters/ocnlms.py
index 145cc93..8127d45 100644
--- a/padasip/filters/ocnlms.py
+++ b/padasip/filters/ocnlms.py
@@ -165,7 +165,8 @@ class FilterOCNLMS(AdaptiveFilter):
         """
         This function moves the memory index to the next position.
         """
-        self.mem_idx += 1
-        if self.mem_idx > len(self.mem_x)-1:
-            self.mem_idx = 0
+        mem_idx = self.mem_idx + 1
+        if mem_idx > len(self.mem_x)-1:
+            mem_idx = 0
             self.mem_empty = False
+        self.mem_idx = mem_idx
-- 
2.43.0


From 1dfac4abf904dfe9a732b1ae5bb2b7f1cc21aa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 10/25] fix: ESE fails as soon as an increment exceeds the
 threshold

The location of the fitted distribution was fixed as a list, so the computed
probability was an array of one element and storing it raised ValueError with
current NumPy (older versions only warned).
---
 padasip/detection/ese.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index cc5ad45..bae8d95 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -133,7 +133,7 @@ def ESE(w, window=1000, pot_method="10%"):
         for j in range(filter_len):
             poted_values = pot(dw[i - window:i, j], pot_method)
             if dw[i, j] > poted_values[-1]:
-                fit = genpareto.fit(poted_values, floc=[poted_values[-1]])
+                fit = genpareto.fit(poted_values, floc=poted_values[-1])
                 if dw[i, j] >= fit[1]:
                     hpp[i - window, j] = 1 - genpareto.cdf(dw[i, j], fit[0], fit[1], fit[2]) + 1e-20
 
-- 
2.43.0


From f8e2ec6d9f90177aaa18d084fb51fed9b20b0585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 11/25] fix: AP and OCNLMS reject an input of one value and AP
 a missing target

An input vector with a single value was silently repeated for all weights of
an AP or OCNLMS filter (all other filters raise an exception), and the AP
filter stored None as a target of NaN.
---
 padasip/filters/base_filter.py | 4 +++-
 padasip/filters/ocnlms.py      | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 6fbb75a..99d1380 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -265,8 +265,10 @@ class AdaptiveFilterAP(AdaptiveFilter):
 
         * `x` : input array (1-dimensional array)
         """
+        if not len(x) == len(self.x_mem):
+            raise ValueError('The filter size and the length of x must agree.')
         np.empty(len(self.x_mem))[:] = x
-        np.empty(1)[0] = d
+        float(d)
 
     def adapt(self, d, x):
         """
diff --git a/padasip/filters/ocnlms.py b/padasip/filters/ocnlms.py
index 8127d45..662f5e8 100644
--- a/padasip/filters/ocnlms.py
+++ b/padasip/filters/ocnlms.py
@@ -120,6 +120,8 @@ class FilterOCNLMS(AdaptiveFilter):
         * `y` : output value (float) calculated from input array.
 
         """
+        if not len(x) == len(self.w):
+            raise ValueError('The filter size and the length of x must agree.')
         m_d, m_x = self.read_memory()
         return np.dot(self.w, x - m_x) + m_d
 
-- 
2.43.0


From e6c766f5b73adaf185d61b3350162b2c853faddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 12/25] fix: pretrained_run rejects malformed data before it
 trains

With d and x of different lengths, or with a row of wrong length behind the
training part, the filter was trained on the first part before the exception.
---
 padasip/filters/base_filter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 99d1380..620758c 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -143,6 +143,14 @@ class AdaptiveFilter():
 
         * `w` : vector of final weights (1 dimensional array).
         """
+        # check the data before any training, so a rejected call changes nothing
+        if not len(d) == len(x):
+            raise ValueError('The length of vector d and matrix x must agree.')
+        try:
+            x = np.array(x)
+            d = np.array(d)
+        except:
+            raise ValueError('Impossible to convert x or d to a numpy array')
         Ntrain = int(len(d)*ntrain)
         # train
         for _ in range(epochs):
-- 
2.43.0


From 51ce7f804b6db33112724ca0c4d0af3c3e3ef429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 13/25] fix: a broken scipy no longer prevents the import of
 padasip

An incompatible scipy fails to import with something else than ImportError
(typically ValueError: numpy.dtype size changed, or AttributeError for names
that numpy has removed). That made the import of the whole library fail,
although only ESE needs scipy.
---
 padasip/detection/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/__init__.py b/padasip/detection/__init__.py
index da56cc9..0e096cd 100644
--- a/padasip/detection/__init__.py
+++ b/padasip/detection/__init__.py
@@ -40,5 +40,5 @@ def ese_not_imported(*args, **kwargs):
 
 try:
     from padasip.detection.ese import ESE
-except ImportError:
+except Exception: # also a broken or incompatible scipy
     ESE = ese_not_imported
-- 
2.43.0


From 918f0d0922e8ec8f0e9d9efa23ec3cdfdd33ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:54 +0000
Subject: [PATCH 14/25] fix: error measures of integer series do not overflow
 or wrap around

---
 padasip/misc/error_evaluation.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/padasip/misc/error_evaluation.py b/padasip/misc/error_evaluation.py
index d2896f1..e7323eb 100644
--- a/padasip/misc/error_evaluation.py
+++ b/padasip/misc/error_evaluation.py
@@ -96,6 +96,14 @@ Code Explanation
 """
 import numpy as np
 
+def to_float_series(x):
+    """
+    Converts series to a numpy array of (at least) double precision, so that
+    the evaluation of integer series does not overflow or wrap around.
+    """
+    x = np.array(x)
+    return x.astype(np.promote_types(x.dtype, "float64"))
+
 def get_valid_error(x1, x2=-1):
     """
     Function that validates:
@@ -109,14 +117,14 @@ def get_valid_error(x1, x2=-1):
     # just error
     if isinstance(x2, int) and x2 == -1:
         try:
-            e = np.array(x1)
+            e = to_float_series(x1)
         except:
             raise ValueError('Impossible to convert series to a numpy array')
     # two series
     else:
         try:
-            x1 = np.array(x1)
-            x2 = np.array(x2)
+            x1 = to_float_series(x1)
+            x2 = to_float_series(x2)
         except:
             raise ValueError('Impossible to convert one of series to a numpy array')
         if not len(x1) == len(x2):
-- 
2.43.0


From 106ce291150b860719fb3f3e51e7b36300a2285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 15/25] fix: filters no longer overflow on integer and
 half-precision inputs

---
 padasip/filters/base_filter.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 620758c..1972884 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -6,6 +6,23 @@
 import numpy as np
 
 
+def to_float_array(x):
+    """
+    Convert input to an array of (at least) double precision, so products
+    of small integers (or half-precision numbers) do not overflow.
+
+    **Args:**
+
+    * `x` : input vector or matrix
+
+    **Returns:**
+
+    * `x` : the same values as a new array
+    """
+    x = np.array(x)
+    return x.astype(np.promote_types(x.dtype, "float64"), copy=False)
+
+
 class AdaptiveFilter():
     """
     Base class for adaptive filter classes. It puts together some functions
@@ -169,6 +186,7 @@ class AdaptiveFilter():
 
         * `x` : input array (1-dimensional array)
         """
+        x = to_float_array(x)
         y = self.predict(x)
         e = d - y
         self.w += self.learning_rule(e, x)
@@ -204,7 +222,7 @@ class AdaptiveFilter():
         self.n = len(x[0])
         # prepare data
         try:
-            x = np.array(x)
+            x = to_float_array(x)
             d = np.array(d)
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
-- 
2.43.0


From a694308d6de57221591333400a656d9f793f1096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 16/25] fix: ESE accepts the documented P-O-T method 30%

---
 padasip/detection/ese.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index bae8d95..9f22d92 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -96,6 +96,8 @@ def pot(data, method):
         k = max(int((n ** (2/3))/np.log10(np.log10(n))), 1)
     elif method == "log10":
         k = max(int(np.log10(n)), 1)
+    elif method == "30%":
+        k = max(int(0.3 * n), 1)
     elif method == "35%":
         k = max(int(0.35 * n), 1)
     return sorted_data[:k]
-- 
2.43.0


From ada4d43410f9134233a7c8fa9d2eca4d212ccd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 17/25] fix: ESE scores a history shorter than its window with
 zeros

---
 padasip/detection/ese.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index 9f22d92..e9b9fec 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -127,6 +127,8 @@ def ESE(w, window=1000, pot_method="10%"):
     dw = np.copy(w)
     dw[1:] = np.abs(np.diff(dw, n=1, axis=0))
     dw_count = int(dw.shape[0])
+    # history shorter than the window has no score yet
+    window = min(window, dw_count)
 
     hpp = np.ones((dw_count - window, filter_len))
     for i in range(window, dw.shape[0]):
-- 
2.43.0


From 7c6058b904867c3eb55a6d0808e1ac5febca8fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 18/25] fix: a cancelled call is no longer reported as invalid
 data

The bare except clauses also caught KeyboardInterrupt, SystemExit and
other cancellations and turned them into ValueError.
---
 padasip/ann/mlp.py                       | 8 ++++----
 padasip/filters/__init__.py              | 2 +-
 padasip/filters/base_filter.py           | 8 ++++----
 padasip/misc/error_evaluation.py         | 4 ++--
 padasip/preprocess/input_from_history.py | 2 +-
 padasip/preprocess/lda.py                | 2 +-
 padasip/preprocess/pca.py                | 2 +-
 padasip/preprocess/standardize.py        | 6 +++---
 padasip/preprocess/standardize_back.py   | 6 +++---
 9 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index b5e07e6..eefa599 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -233,7 +233,7 @@ class NetworkMLP():
         else:
             try:
                 param = float(mu)
-            except:
+            except Exception:
                 raise ValueError(
                     'Parameter mu is not float or similar'
                     )
@@ -305,7 +305,7 @@ class NetworkMLP():
         try:
             x = np.array(x)
             d = np.array(d)
-        except:
+        except Exception:
             raise ValueError('Impossible to convert x or d to a numpy array')
         # create empty arrays
         if self.outputs == 1:
@@ -345,7 +345,7 @@ class NetworkMLP():
         # measure the data and check if the dimmension agree
         try:
             x = np.array(x)
-        except:
+        except Exception:
             raise ValueError('Impossible to convert x to a numpy array')
         N = len(x)
         # create empty arrays
@@ -392,7 +392,7 @@ class NetworkMLP():
         try:
             x = np.array(x)
             d = np.array(d)
-        except:
+        except Exception:
             raise ValueError('Impossible to convert x or d to a numpy array')
         # create empty arrays
         if self.outputs == 1:
diff --git a/padasip/filters/__init__.py b/padasip/filters/__init__.py
index 32920b9..0e0a495 100644
--- a/padasip/filters/__init__.py
+++ b/padasip/filters/__init__.py
@@ -260,7 +260,7 @@ def get_filter(name):
     """
     try:
         return FILTERS[name.upper()]
-    except:
+    except Exception:
         msg = 'Unknown model of filter {}, options are {}'
         raise ValueError(msg.format(name, list(FILTERS.keys())))
 
diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 1972884..d830a8d 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -109,7 +109,7 @@ class AdaptiveFilter():
         elif len(w) == n:
             try:
                 w = np.array(w, dtype="float64")
-            except:
+            except Exception:
                 raise ValueError('Impossible to understand the w')
         else:
             raise ValueError('Impossible to understand the w')
@@ -166,7 +166,7 @@ class AdaptiveFilter():
         try:
             x = np.array(x)
             d = np.array(d)
-        except:
+        except Exception:
             raise ValueError('Impossible to convert x or d to a numpy array')
         Ntrain = int(len(d)*ntrain)
         # train
@@ -224,7 +224,7 @@ class AdaptiveFilter():
         try:
             x = to_float_array(x)
             d = np.array(d)
-        except:
+        except Exception:
             raise ValueError('Impossible to convert x or d to a numpy array')
         # create empty arrays
         y = np.zeros(N)
@@ -355,7 +355,7 @@ class AdaptiveFilterAP(AdaptiveFilter):
         try:
             x = np.array(x)
             d = np.array(d)
-        except:
+        except Exception:
             raise ValueError('Impossible to convert x or d to a numpy array')
         # create empty arrays
         y = np.zeros(N)
diff --git a/padasip/misc/error_evaluation.py b/padasip/misc/error_evaluation.py
index e7323eb..198db01 100644
--- a/padasip/misc/error_evaluation.py
+++ b/padasip/misc/error_evaluation.py
@@ -118,14 +118,14 @@ def get_valid_error(x1, x2=-1):
     if isinstance(x2, int) and x2 == -1:
         try:
             e = to_float_series(x1)
-        except:
+        except Exception:
             raise ValueError('Impossible to convert series to a numpy array')
     # two series
     else:
         try:
             x1 = to_float_series(x1)
             x2 = to_float_series(x2)
-        except:
+        except Exception:
             raise ValueError('Impossible to convert one of series to a numpy array')
         if not len(x1) == len(x2):
             raise ValueError('The length of both series must agree.')
diff --git a/padasip/preprocess/input_from_history.py b/padasip/preprocess/input_from_history.py
index aba25f3..17b2e9c 100644
--- a/padasip/preprocess/input_from_history.py
+++ b/padasip/preprocess/input_from_history.py
@@ -65,7 +65,7 @@ def input_from_history(a, n, bias=False):
         raise ValueError('The argument n must be greater than 0')
     try:
         a = np.array(a, dtype="float64")
-    except:
+    except Exception:
         raise ValueError('The argument a is not numpy array or similar.')
     x = np.array([a[i:i+n] for i in range(len(a)-n+1)])
     if bias:
diff --git a/padasip/preprocess/lda.py b/padasip/preprocess/lda.py
index cdca01d..df6e337 100644
--- a/padasip/preprocess/lda.py
+++ b/padasip/preprocess/lda.py
@@ -188,7 +188,7 @@ def LDA_discriminants(x, labels):
     # validate inputs
     try:
         x = np.array(x)
-    except:
+    except Exception:
         raise ValueError('Impossible to convert x to a numpy array.')
     # make the LDA
     eigen_values, eigen_vectors = LDA_base(x, labels)
diff --git a/padasip/preprocess/pca.py b/padasip/preprocess/pca.py
index cc0b304..c3bdcb7 100644
--- a/padasip/preprocess/pca.py
+++ b/padasip/preprocess/pca.py
@@ -88,7 +88,7 @@ def PCA_components(x):
     # validate inputs
     try:
         x = np.array(x)
-    except:
+    except Exception:
         raise ValueError('Impossible to convert x to a numpy array.')
     # eigen values and eigen vectors of data covariance matrix
     eigen_values, eigen_vectors = np.linalg.eig(np.cov(x.T))
diff --git a/padasip/preprocess/standardize.py b/padasip/preprocess/standardize.py
index f402b32..e25dc3f 100644
--- a/padasip/preprocess/standardize.py
+++ b/padasip/preprocess/standardize.py
@@ -83,17 +83,17 @@ def standardize(x, offset=None, scale=None):
     else:
         try:
             offset = float(offset)
-        except:
+        except Exception:
             raise ValueError('The argument offset is not None or float')
     if scale is None:
         scale = np.array(x).std()
     else:
         try:
             scale = float(scale)
-        except:
+        except Exception:
             raise ValueError('The argument scale is not None or float')
     try:
         x = np.array(x, dtype="float64")
-    except:
+    except Exception:
         raise ValueError('The argument x is not numpy array or similar.')
     return (x - offset) / scale
diff --git a/padasip/preprocess/standardize_back.py b/padasip/preprocess/standardize_back.py
index 1ddf1c6..5f8f153 100644
--- a/padasip/preprocess/standardize_back.py
+++ b/padasip/preprocess/standardize_back.py
@@ -49,14 +49,14 @@ def standardize_back(xs, offset, scale):
     """
     try:
         offset = float(offset)
-    except:
+    except Exception:
         raise ValueError('The argument offset is not None or float.')
     try:
         scale = float(scale)
-    except:
+    except Exception:
         raise ValueError('The argument scale is not None or float.')
     try:
         xs = np.array(xs, dtype="float64")
-    except:
+    except Exception:
         raise ValueError('The argument xs is not numpy array or similar.')
     return xs*scale + offset
-- 
2.43.0


From db99c785285d5f23770426666a722eaa7744a526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:42 +0000
Subject: [PATCH 19/25] fix: PCA and LDA reject too many features also without
 assertions

Under python -O the assert statements vanish and the functions silently
returned fewer columns than requested.
---
 padasip/preprocess/lda.py | 5 +++--
 padasip/preprocess/pca.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/padasip/preprocess/lda.py b/padasip/preprocess/lda.py
index df6e337..ca148ef 100644
--- a/padasip/preprocess/lda.py
+++ b/padasip/preprocess/lda.py
@@ -159,8 +159,9 @@ def LDA(x, labels, n=False):
     * new_x : matrix with reduced size (number of columns are equal `n`)
     """
     n = n if n else x.shape[1] - 1
-    assert x.shape[1] > n, "The requested n is bigger than \
-        number of features in x."
+    if not x.shape[1] > n:
+        raise AssertionError("The requested n is bigger than \
+        number of features in x.")
     # make the LDA
     eigen_values, eigen_vectors = LDA_base(x, labels)
     # sort the eigen vectors according to eigen values
diff --git a/padasip/preprocess/pca.py b/padasip/preprocess/pca.py
index c3bdcb7..ffeb3d7 100644
--- a/padasip/preprocess/pca.py
+++ b/padasip/preprocess/pca.py
@@ -116,8 +116,9 @@ def PCA(x, n=False):
     * `new_x` : matrix with reduced size (lower number of columns)
     """
     n = n if n else x.shape[1] - 1
-    assert x.shape[1] > n, "The requested n is bigger than \
-        number of features in x."
+    if not x.shape[1] > n:
+        raise AssertionError("The requested n is bigger than \
+        number of features in x.")
     # eigen values and eigen vectors of data covariance matrix
     eigen_values, eigen_vectors = np.linalg.eig(np.cov(x.T))
     # sort eigen vectors according biggest eigen value
-- 
2.43.0


From 5c43a1e76bd8e1b277e83d5598f440271af7cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:00 +0000
Subject: [PATCH 20/25] fix: input values that are no numbers are rejected
 before the filter is changed

---
 padasip/filters/base_filter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index d830a8d..cb07702 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -20,7 +20,10 @@ def to_float_array(x):
     * `x` : the same values as a new array
     """
     x = np.array(x)
-    return x.astype(np.promote_types(x.dtype, "float64"), copy=False)
+    dtype = np.promote_types(x.dtype, "float64")
+    if not dtype.kind == "f":
+        raise TypeError('The input values must be real numbers.')
+    return x.astype(dtype, copy=False)
 
 
 class AdaptiveFilter():
@@ -293,7 +296,8 @@ class AdaptiveFilterAP(AdaptiveFilter):
         """
         if not len(x) == len(self.x_mem):
             raise ValueError('The filter size and the length of x must agree.')
-        np.empty(len(self.x_mem))[:] = x
+        # adding zero rejects what only numpy takes for a number (None, text)
+        np.empty(len(self.x_mem))[:] = np.array(x) + 0
         float(d)
 
     def adapt(self, d, x):
-- 
2.43.0


From 03471f13ae14f661ecc566bc822f28ebc9a81be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:23 +0000
Subject: [PATCH 21/25] fix: learning_entropy accepts the sensitivities as an
 array

---
 padasip/detection/le.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/padasip/detection/le.py b/padasip/detection/le.py
index 725e438..b932fe3 100644
--- a/padasip/detection/le.py
+++ b/padasip/detection/le.py
@@ -160,6 +160,8 @@ def learning_entropy(w, m=10, order=1, alpha=False):
 
     """
     w = np.array(w)
+    # the truth value of an array is ambiguous
+    alpha = alpha.tolist() if isinstance(alpha, np.ndarray) else alpha
     # get length of data and number of parameters
     N, n = w.shape
     # get abs dw from w
-- 
2.43.0


From 03241fc3b6270068146074e78dcd92a1f8a0b34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:26 +0000
Subject: [PATCH 22/25] fix: LDA accepts labels given as a list of texts

---
 padasip/preprocess/lda.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/padasip/preprocess/lda.py b/padasip/preprocess/lda.py
index ca148ef..df1698b 100644
--- a/padasip/preprocess/lda.py
+++ b/padasip/preprocess/lda.py
@@ -113,6 +113,8 @@ def LDA_base(x, labels):
       from LDA analysis
 
     """
+    # comparison of a list of texts with a label is not made item by item
+    labels = np.array(labels)
     classes = np.array(tuple(dict.fromkeys(labels)))
     cols = x.shape[1]
     # mean values for every class
-- 
2.43.0


From 082fef3e88034ba1b93ea933ff41a58e2411600b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:24 +0000
Subject: [PATCH 23/25] fix: adapt rejects a matrix input or a target that is
 not one real number before the filter is changed

---
 padasip/filters/base_filter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index cb07702..3eb00ec 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -189,9 +189,16 @@ class AdaptiveFilter():
 
         * `x` : input array (1-dimensional array)
         """
+        # a malformed sample is rejected before anything is changed
         x = to_float_array(x)
+        if x.ndim > 1:
+            raise ValueError('The input x must be one vector.')
         y = self.predict(x)
         e = d - y
+        if np.shape(e) == (1,):
+            e = e[0]
+        if np.ndim(e) > 0 or np.iscomplexobj(e):
+            raise ValueError('The desired value d must be one real number.')
         self.w += self.learning_rule(e, x)
 
     def run(self, d, x):
@@ -296,6 +303,8 @@ class AdaptiveFilterAP(AdaptiveFilter):
         """
         if not len(x) == len(self.x_mem):
             raise ValueError('The filter size and the length of x must agree.')
+        if np.iscomplexobj(x):
+            raise ValueError('The values of x must be real numbers.')
         # adding zero rejects what only numpy takes for a number (None, text)
         np.empty(len(self.x_mem))[:] = np.array(x) + 0
         float(d)
-- 
2.43.0


From 6296534e3a1d30fff5a42855e188531d4d479a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:13 +0000
Subject: [PATCH 24/25] fix: NetworkMLP.update rejects a wrong number of
 targets before any weights are changed

---
 padasip/ann/mlp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index eefa599..b9f4c28 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -447,6 +447,8 @@ class NetworkMLP():
         """
         # update output layer
         e = d - self.y
+        if not np.size(e) == self.outputs:
+            raise ValueError('The number of targets must agree with the number of outputs.')
         error = np.copy(e)
         if self.outputs == 1:
             dw = self.mu * e * self.x
-- 
2.43.0


From 217fb298a9286069f0878481f174abe0402f64b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:10 +0000
Subject: [PATCH 25/25] fix: detectors do not wrap around on weight histories
 of short or unsigned integers

---
 padasip/detection/elbnd.py | 3 +++
 padasip/detection/ese.py   | 4 +++-
 padasip/detection/le.py    | 2 ++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/padasip/detection/elbnd.py b/padasip/detection/elbnd.py
index 491f14e..84361e4 100644
--- a/padasip/detection/elbnd.py
+++ b/padasip/detection/elbnd.py
@@ -113,6 +113,9 @@ def ELBND(w, e, function="max"):
     # check if the function is known
     if function not in ["max", "sum"]:
         raise ValueError('Unknown output function')
+    # increments of short or unsigned integers would wrap around
+    w = np.array(w)
+    w = w.astype(np.promote_types(w.dtype, "float64"))
     # get abs dw from w
     dw = np.zeros(w.shape)
     dw[:-1] = np.abs(np.diff(w, axis=0))
diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index e9b9fec..84e1456 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -124,7 +124,9 @@ def ESE(w, window=1000, pot_method="10%"):
 
     """
     filter_len = w.shape[1]
-    dw = np.copy(w)
+    # increments of short or unsigned integers would wrap around
+    dw = np.array(w)
+    dw = dw.astype(np.promote_types(dw.dtype, "float64"))
     dw[1:] = np.abs(np.diff(dw, n=1, axis=0))
     dw_count = int(dw.shape[0])
     # history shorter than the window has no score yet
diff --git a/padasip/detection/le.py b/padasip/detection/le.py
index b932fe3..7402c81 100644
--- a/padasip/detection/le.py
+++ b/padasip/detection/le.py
@@ -159,7 +159,9 @@ def learning_entropy(w, m=10, order=1, alpha=False):
     * Learning Entropy of data (1 d array) - one value for every sample
 
     """
+    # increments of short or unsigned integers would wrap around
     w = np.array(w)
+    w = w.astype(np.promote_types(w.dtype, "float64"))
     # the truth value of an array is ambiguous
     alpha = alpha.tolist() if isinstance(alpha, np.ndarray) else alpha
     # get length of data and number of parameters
-- 
2.43.0

