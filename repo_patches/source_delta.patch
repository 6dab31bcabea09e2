From 18e2a71952821165582d2c38e301aaf774e29387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 01/27] fix: HPELM.project stores each batch at its own rows
 when istart is not zero

---
 hpelm/hp_elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 43471b6..d8c8cd6 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -282,7 +282,7 @@ class HPELM(ELM):
             # process data
             Hb = self.nnet._project(Xb)
             # write data
-            H[start:stop-istart] = Hb
+            H[start-istart:stop-istart] = Hb
 
             # report time
             eta = int(((time()-t0) / (b+1)) * (nb-b-1))
-- 
2.43.0


From 0551d0e877ebe872985ccfc52d330c52baf7d5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 02/27] fix: neurons with a custom numpy ufunc can be projected

---
 hpelm/nnets/slfn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hpelm/nnets/slfn.py b/hpelm/nnets/slfn.py
index 176c2c4..2cac7ea 100644
--- a/hpelm/nnets/slfn.py
+++ b/hpelm/nnets/slfn.py
@@ -79,6 +79,8 @@ class SLFN(object):
             W (matrix): a 2-D matrix of neuron weights, size (`inputs` * `number`)
             B (vector): a 1-D vector of neuron biases, size (`number` * 1)
         """
+        if func not in self.func:  # custom function, applied to a linear projection of inputs
+            self.func[func] = lambda X, W, B: func(np.dot(X, W) + B).astype(self.precision)
         ntypes = [nr[1] for nr in self.neurons]  # existing types of neurons
         if func in ntypes:
             # add to an existing neuron type
-- 
2.43.0


From c71e669e78163922ae1cc19a1908d8acbd7ef110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 03/27] fix: SLFNPython.get_corr returns a symmetric HH also
 after set_corr

---
 hpelm/nnets/slfn_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/nnets/slfn_python.py b/hpelm/nnets/slfn_python.py
index 8bfdcd0..d511aa4 100644
--- a/hpelm/nnets/slfn_python.py
+++ b/hpelm/nnets/slfn_python.py
@@ -69,5 +69,5 @@ class SLFNPython(SLFN):
     def get_corr(self):
         """Return current correlation matrices.
         """
-        HH = self.HH + np.triu(self.HH, k=1).T
+        HH = np.triu(self.HH) + np.triu(self.HH, k=1).T
         return HH, self.HT
-- 
2.43.0


From 919c4d10d1de7a8d42a67d2eab9155c605540bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 04/27] fix: SLFNPython.solve_corr solves the given system when
 a full HH is singular

---
 hpelm/nnets/slfn_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/nnets/slfn_python.py b/hpelm/nnets/slfn_python.py
index d511aa4..2e3264e 100644
--- a/hpelm/nnets/slfn_python.py
+++ b/hpelm/nnets/slfn_python.py
@@ -61,7 +61,7 @@ class SLFNPython(SLFN):
         if info > 0:
             print("Covariance matrix is not full rank; solving with SVD (slow)")
             print("This happened because you have duplicated or too many neurons")
-            HH = HH + np.triu(HH, k=1).T
+            HH = np.triu(HH) + np.triu(HH, k=1).T
             B = np.linalg.lstsq(HH, HT)[0]
         return B
 
-- 
2.43.0


From a87bfa4bef356cdf00000eea3f424d9d5e0de0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 05/27] fix: loading a model keeps the solver type and drops
 the previous network

---
 hpelm/elm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 734df2d..d733dc7 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -459,8 +459,7 @@ class ELM(object):
         self.wc = m["Weights_WC"]
 
         # create a new solver and load neurons / Beta into it with correct precision
-        if self.accelerator is None:
-            self.nnet = SLFN(inputs, outputs, precision=self.precision)
+        self.nnet = type(self.nnet)(inputs, outputs, precision=self.precision)
         for number, func, W, B in m["neurons"]:
             self.nnet.add_neurons(number, func, W.astype(self.precision), B.astype(self.precision))
         self.nnet.norm = m["norm"]
-- 
2.43.0


From 3f06ee31731f921d72cc85a19938aaf65501a2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 06/27] fix: cross-validation works with one or two neurons

---
 hpelm/mss_cv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 35f349c..c713788 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -68,7 +68,7 @@ def train_cv(self, X, T, k):
     # halve the interval each time
 
     # initialize intervals
-    iA = 3
+    iA = min(3, L)  # there can be less than 3 neurons
     iE = L
     l = iE - iA
     iB = iA + l//4
-- 
2.43.0


From dbfb24eb3a8098d8ce758e9bda494cd66b83afd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 07/27] fix: cross-validation returns the test error of the
 selected model, not of the full one

---
 hpelm/mss_cv.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index c713788..98b168f 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -112,9 +112,10 @@ def train_cv(self, X, T, k):
 
     # get test error
     err_t = 0
-    for HH, HT, _, _, Hts, Tts, _ in datak:
-        B = self.nnet.solve_corr(HH, HT)
-        Yts = np.dot(Hts, B)
+    for HH, HT, _, _, Hts, Tts, rank in datak:
+        rank1 = rank[:k_opt]
+        B = self.nnet.solve_corr(HH[rank1, :][:, rank1], HT[rank1, :])
+        Yts = np.dot(Hts[:, rank1], B)
         err_t += self._error(Tts, Yts) / k
 
     self.nnet._prune(best_L)
-- 
2.43.0


From de17984b854062b2ddbe330201bf943752f65b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 08/27] fix: model selection with kmax evaluates the largest
 size with its own kmax neurons

---
 hpelm/mss_cv.py  | 6 +++---
 hpelm/mss_loo.py | 9 +++++----
 hpelm/mss_v.py   | 4 ++--
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 98b168f..564a8b3 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -56,9 +56,9 @@ def train_cv(self, X, T, k):
     e = np.ones((L+1,)) * -1  # errors for all numbers of neurons
 
     err = 0
-    for HH, HT, Hvl, Tvl, _, _, _ in datak:
-        B = self.nnet.solve_corr(HH, HT)
-        Yvl = np.dot(Hvl, B)
+    for HH, HT, Hvl, Tvl, _, _, rank in datak:
+        B = self.nnet.solve_corr(HH[rank, :][:, rank], HT[rank, :])
+        Yvl = np.dot(Hvl[:, rank], B)
         err += self._error(Tvl, Yvl) / k
     penalty = err * 0.01 / L  # penalty is 1% of error at max(L)
     e[L] = err + L * penalty
diff --git a/hpelm/mss_loo.py b/hpelm/mss_loo.py
index 94c6dfd..a3a9f81 100644
--- a/hpelm/mss_loo.py
+++ b/hpelm/mss_loo.py
@@ -30,10 +30,11 @@ def train_loo(self, X, T):
     rank, L = self._ranking(L, H, T)  # create ranking of neurons
 
     # PRESS_LOO
-    P = np.linalg.inv(HH)
-    Bt = np.dot(P, HT)
-    R = np.ones((N,)) - np.einsum('ij,ji->i', np.dot(H, P), H.T)
-    Y = np.dot(H, Bt)
+    H1 = np.take(H, rank, 1)
+    P = np.linalg.inv(HH[rank, :][:, rank])
+    Bt = np.dot(P, HT[rank, :])
+    R = np.ones((N,)) - np.einsum('ij,ji->i', np.dot(H1, P), H1.T)
+    Y = np.dot(H1, Bt)
     err = self._error(T, Y, R)
 
     penalty = err * 0.01 / L  # penalty is 1% of error at max(L)
diff --git a/hpelm/mss_v.py b/hpelm/mss_v.py
index 33b5829..0d5aa2c 100644
--- a/hpelm/mss_v.py
+++ b/hpelm/mss_v.py
@@ -22,13 +22,13 @@ def train_v(self, X, T, Xv, Tv):
     """
     self.add_data(X, T)
     HH, HT = self.nnet.get_corr()
-    B = self.nnet.solve_corr(HH, HT)
     Hv = self.nnet._project(Xv)
     L = self.nnet.L
     e = np.ones((L+1,)) * -1  # errors for all numbers of neurons
     rank, L = self._ranking(L, Hv, Tv)  # create ranking of neurons
 
-    Yv = np.dot(Hv, B)
+    B = self.nnet.solve_corr(HH[rank, :][:, rank], HT[rank, :])
+    Yv = np.dot(Hv[:, rank], B)
     err = self._error(Tv, Yv)
     # TODO: replace penalty by Akaike-BIC criterion
     penalty = err*0.01 / L  # penalty is 1% of error at max(L)
-- 
2.43.0


From caeecd0f019c0f3a499a90766542d784e29f5f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 09/27] fix: model selection uses class weights of weighted
 classification in training

---
 hpelm/mss_cv.py  | 9 +++++++--
 hpelm/mss_loo.py | 2 +-
 hpelm/mss_v.py   | 2 +-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 564a8b3..33db372 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -29,6 +29,11 @@ def train_cv(self, X, T, k):
     L = self.nnet.L
     c = self.nnet.outputs
 
+    # find automatic weights from the whole training set if none are given
+    if self.classification == "wc" and self.wc is None:
+        ns = T.sum(axis=0).astype(self.precision)
+        self.wc = ns.sum() / ns
+
     idxk = []
     for i in range(k):
         idxk.append(np.arange(N)[i::k])
@@ -46,7 +51,7 @@ def train_cv(self, X, T, k):
         Xts = X[idx_ts]
         Tts = T[idx_ts]
         self.nnet.reset()
-        self.nnet.add_batch(Xtr, Ttr)
+        self.add_data(Xtr, Ttr)
         HH, HT = self.nnet.get_corr()
         Hvl = self.nnet._project(Xvl)
         Hts = self.nnet._project(Xts)
@@ -119,7 +124,7 @@ def train_cv(self, X, T, k):
         err_t += self._error(Tts, Yts) / k
 
     self.nnet._prune(best_L)
-    self.nnet.add_batch(X, T)
+    self.add_data(X, T)
     self.nnet.solve()
 #    print "%d of %d neurons selected with a Cross-Validation" % (len(best_nn), nn)
 #    print "the Cross-Validation test error is %f" % err_ts
diff --git a/hpelm/mss_loo.py b/hpelm/mss_loo.py
index a3a9f81..a07b793 100644
--- a/hpelm/mss_loo.py
+++ b/hpelm/mss_loo.py
@@ -90,7 +90,7 @@ def train_loo(self, X, T):
     best_L = rank[:k_opt]
 
     self.nnet._prune(best_L)
-    self.nnet.add_batch(X, T)
+    self.add_data(X, T)
     self.nnet.solve()
 #    print "%d of %d neurons selected with a LOO validation" % (len(best_nn), nn)
 #    if len(best_nn) > nn*0.9:
diff --git a/hpelm/mss_v.py b/hpelm/mss_v.py
index 0d5aa2c..5b370d9 100644
--- a/hpelm/mss_v.py
+++ b/hpelm/mss_v.py
@@ -78,7 +78,7 @@ def train_v(self, X, T, Xv, Tv):
     best_L = rank[:k_opt]
 
     self.nnet._prune(best_L)
-    self.nnet.add_batch(X, T)
+    self.add_data(X, T)
     self.nnet.solve()
 #    print "%d of %d neurons selected with a validation set" % (len(best_nn), nn)
 #    if len(best_nn) > nn*0.9:
-- 
2.43.0


From 9f40bc7807b404b2dec7e69f9a95216ef314d8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 10/27] fix: model selection options work in lower case

---
 hpelm/elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index d733dc7..94031a7 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -180,9 +180,9 @@ class ELM(object):
                 split of data during the cross-validation procedure
         """
         X, T = self._checkdata(X, T)
+        args = [a.upper() for a in args]
         self._train_parse_args(args, kwargs)
 
-        # TODO: test upper case and lower case 'V', ...
         # train ELM with desired model structure selection
         if "V" in args:  # use validation set
             assert "Xv" in kwargs.keys(), "Provide validation dataset (Xv)"
-- 
2.43.0


From d79e7d425c0ec44bcf66b70fc89ef3d12cd195f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 11/27] fix: classification type given to the constructor works
 in upper case

---
 hpelm/elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 94031a7..c16a9a2 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -85,7 +85,7 @@ class ELM(object):
         # init other stuff
         self.classification = None  # train ELM for classification
         if classification.lower() in ("c", "wc", "ml", "mc"):  # allow 'mc'=='ml' for compatibility
-            self.classification = classification.replace("mc", "ml")
+            self.classification = classification.lower().replace("mc", "ml")
         self.wc = None  # weighted classification weights
         if w is not None:
             w = np.array(w)
-- 
2.43.0


From 8f9bcfbd369496a7a8384e3cd71c8e393c32f669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 12/27] fix: a malformed validation set is rejected before the
 model is reset

---
 hpelm/elm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index c16a9a2..53f40ad 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -181,15 +181,16 @@ class ELM(object):
         """
         X, T = self._checkdata(X, T)
         args = [a.upper() for a in args]
-        self._train_parse_args(args, kwargs)
-
-        # train ELM with desired model structure selection
-        if "V" in args:  # use validation set
+        if "V" in args:  # check validation set before changing the model
             assert "Xv" in kwargs.keys(), "Provide validation dataset (Xv)"
             assert "Tv" in kwargs.keys(), "Provide validation outputs (Tv)"
             Xv = kwargs['Xv']
             Tv = kwargs['Tv']
             Xv, Tv = self._checkdata(Xv, Tv)
+        self._train_parse_args(args, kwargs)
+
+        # train ELM with desired model structure selection
+        if "V" in args:  # use validation set
             train_v(self, X, T, Xv, Tv)
         elif "CV" in args:  # use cross-validation
             assert "k" in kwargs.keys(), "Provide Cross-Validation number of splits (k)"
-- 
2.43.0


From af9b4096aaf48a7638a85a97cd4cdaad0d6aece0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 13/27] fix: out-of-core weighted classification error is not
 NaN when a class has no samples

---
 hpelm/hp_elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index d8c8cd6..81c1bf4 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -363,7 +363,7 @@ class HPELM(ELM):
                         err1 = np.not_equal(Yb[idx].argmax(1), i)
                         errc[i] += err1.sum()
                         countc[i] += len(idx)
-            errc = errc / countc  # get mean value
+            errc = errc / np.maximum(countc, 1)  # get mean value; no error in classes without samples
             err = np.sum(errc * self.wc) / np.sum(self.wc)
 
         elif self.classification == "ml":
-- 
2.43.0


From 6a3e7fd671c7454997203db71740912382f99149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 14/27] fix: storing HH on disk does not remove the
 regularisation from the basic solver's own HH

---
 hpelm/hp_elm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 81c1bf4..8320521 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -166,6 +166,7 @@ class HPELM(ELM):
         # if storing output to disk
         if fHH is not None and fHT is not None:
             HH, HT = self.nnet.get_corr()
+            HH = HH.copy()  # can be the matrix of the model itself
             HH[np.diag_indices_from(HH)] -= self.nnet.norm  # norm is already included
             _write_fHH(fHH, fHT, HH, HT)
 
@@ -553,6 +554,7 @@ class HPELM(ELM):
         # if storing output to disk
         if fHH is not None and fHT is not None:
             HH, HT = self.nnet.get_corr()
+            HH = HH.copy()  # can be the matrix of the model itself
             HH[np.diag_indices_from(HH)] -= self.nnet.norm  # norm is already included
             _write_fHH(fHH, fHT, HH, HT)
 
-- 
2.43.0


From d1aed306e876aea201f715a8341da38cf9bb7f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 15/27] fix: validation_corr never reports more neurons than
 the model has

---
 hpelm/hp_elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 8320521..ab33fb5 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -419,7 +419,7 @@ class HPELM(ELM):
         classification = self.classification is not None
 
         Ls = np.logspace(np.log(3), np.log(L), steps, base=np.e, endpoint=True)
-        Ls = np.ceil(Ls).astype(int)
+        Ls = np.minimum(np.ceil(Ls).astype(int), L)  # rounding errors or a small L can give more than L
         Ls = np.unique(Ls)  # numbers of neurons to check
         k = Ls.shape[0]
         errs = np.zeros((k,))  # errors for these numbers of neurons
-- 
2.43.0


From 62643a910891ef8f582413ce598b77245f851648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 16/27] fix: validation_corr accepts a vector of numbers of
 neurons

---
 hpelm/hp_elm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index ab33fb5..ce371b6 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -418,7 +418,10 @@ class HPELM(ELM):
         L = self.nnet.L
         classification = self.classification is not None
 
-        Ls = np.logspace(np.log(3), np.log(L), steps, base=np.e, endpoint=True)
+        if np.ndim(steps) > 0:
+            Ls = np.array(steps)  # exact numbers of neurons
+        else:
+            Ls = np.logspace(np.log(3), np.log(L), steps, base=np.e, endpoint=True)
         Ls = np.minimum(np.ceil(Ls).astype(int), L)  # rounding errors or a small L can give more than L
         Ls = np.unique(Ls)  # numbers of neurons to check
         k = Ls.shape[0]
-- 
2.43.0


From 977f7ee8af7cb15d1855c5dbaddaf739e9657963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 17/27] fix: validation_corr reports the weighted
 classification error of the whole validation set

---
 hpelm/hp_elm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index ce371b6..80bff65 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -453,6 +453,12 @@ class HPELM(ELM):
                 print("processing batch %d/%d, eta %d:%02d:%02d" % (b+1, nb, eta/3600, (eta % 3600)/60, eta % 60))
                 t = time()
 
+        if self.classification == "wc":  # error of a class is not an average over batches
+            for i in xrange(k):
+                nc = confs[i].sum(axis=1)  # number of samples in classes
+                errc = (nc - confs[i].diagonal()) / np.maximum(nc, 1)
+                errs[i] = np.sum(errc * self.wc) / np.sum(self.wc)
+
         k_opt = np.argmin(errs)
         best_L = Ls[k_opt]
         self.nnet._prune(np.arange(best_L))
-- 
2.43.0


From b0abcb531f4c18f91aff05d542a115c82fe76213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 18/27] fix: predict_async stores outputs in the model's
 precision, as predict does

---
 hpelm/hp_elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 80bff65..e6184fc 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -580,7 +580,7 @@ class HPELM(ELM):
         icount = min(icount, N - istart)
         nb = int(np.ceil(float(icount) / self.batch))  # number of batches
         # make file to store results
-        make_hdf5((icount, self.nnet.outputs), fY)
+        make_hdf5((icount, self.nnet.outputs), fY, dtype=self.precision)
 
         # start async reader and writer for HDF5 files
         qr_in = mp.Queue()
-- 
2.43.0


From 24b3ab2351bf510c52c86763a3965b94d5f0e42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 19/27] fix: text files can be converted to HDF5 in Python
 3.11+, which has no "rU" mode

---
 hpelm/modules/hdf5_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index e63152e..6258ee0 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -184,7 +184,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
         # iterative out-of-memory loader for huge .csv/.txt files
         fill = "iter"
         # check data dimensionality
-        with open(data, "rU") as f:
+        with open(data, "r") as f:
             for _ in range(skiprows):
                 f.readline()
             reader = csv.reader(f, delimiter=delimiter)
@@ -211,7 +211,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
     # write data to hdf5 file
     if fill == "iter":  # iteratively fill the data
         h5data = h5.create_earray(h5.root, "data", a, (0, X.shape[0]), filters=flt)
-        with open(data, "rU") as f:
+        with open(data, "r") as f:
             for _ in range(skiprows):
                 f.readline()
             reader = csv.reader(f, delimiter=delimiter)
-- 
2.43.0


From 943188c0af6de510b8bb503cf75796523e78d3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 20/27] fix: mrsr handles duplicated neurons with Numpy 2,
 which has no np.linalg.linalg

---
 hpelm/modules/mrsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/mrsr.py b/hpelm/modules/mrsr.py
index ab3547b..77cc3a8 100755
--- a/hpelm/modules/mrsr.py
+++ b/hpelm/modules/mrsr.py
@@ -97,7 +97,7 @@ def mrsr(X, T, kmax):
         #v3 = XX[i1, :][:, i1]
         try:
             invXX = np.linalg.inv(v3)	   
-        except np.linalg.linalg.LinAlgError:
+        except np.linalg.LinAlgError:
             invXX = np.linalg.pinv(v3)
 
         Wols = np.dot(invXX, XT.take(i1,axis=0))
-- 
2.43.0


From 9c5efd2df9bf8b06464600df4a0f8318c383ba0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 21/27] fix: mrsr ranks a single regressor and exactly fitted
 targets

---
 hpelm/modules/mrsr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hpelm/modules/mrsr.py b/hpelm/modules/mrsr.py
index 77cc3a8..fb4be7b 100755
--- a/hpelm/modules/mrsr.py
+++ b/hpelm/modules/mrsr.py
@@ -71,7 +71,8 @@ def mrsr(X, T, kmax):
     Yols  = np.dot(Xi1, np.reshape(Wols, (1,-1)))
     B     = np.dot(Yols.T, Xi2)
     G     = (cmax+np.dot(S,A))/(cmax+np.dot(S,B))
-    g     = G[G>=0].min()
+    G     = G[G>=0]  # empty with a single regressor, or if the targets are fitted exactly
+    g     = G.min() if G.size > 0 else 1
     Y = g*Yols
 
     # Rest of the steps
@@ -113,7 +114,8 @@ def mrsr(X, T, kmax):
         if k == kmax:  # G[G>=0] is empty if k==kmax; empty.min() will give error
             Y = Yols
         else:
-            g = G[G>=0].min()
+            G = G[G>=0]
+            g = G.min() if G.size > 0 else 1
             Y = (1-g)*Y+g*Yols
 		
     return i1
-- 
2.43.0


From 3c8ff3ec71c6c2d0eb20da60f46b0faec3c55fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 22/27] fix: normalize_hdf5 applies computed normalization, and
 returns stored one without an error

---
 hpelm/modules/hdf5_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 6258ee0..13ec1ec 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -131,13 +131,13 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
             std = (E_x2 - E2_x)**0.5
             node.attrs.mean = mean
             node.attrs.std = std
-            h5.close()
-            return mean, std
         else:  # data is already normalized
             print("data was already normalized, returning 'mean', 'std' parameters")
             print("if you want to run normalization anyway, call the function with 'mean' and 'std' params")
+            mean = node.attrs.mean
+            std = node.attrs.std
             h5.close()
-            return node.attrs.mean, node.attrs.std
+            return mean, std
     else:
         msg1 = "Incorrect lenght of a vector of means: %d expected, %d found" % (d, len(mean))
         assert len(mean) == d, msg1
-- 
2.43.0


From ca54e43f4f3dd8b571b19f442d2884e305852e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 23/27] fix: normalize_hdf5 does not turn constant columns into
 NaN

---
 hpelm/modules/hdf5_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 13ec1ec..f5ed0b5 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -128,7 +128,7 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
                 E_x2 += np.mean(X1**2, 0) * (1.0*step/N)
             mean = E_x
             E2_x = E_x**2
-            std = (E_x2 - E2_x)**0.5
+            std = np.maximum(E_x2 - E2_x, 0)**0.5  # rounding errors can make it negative
             node.attrs.mean = mean
             node.attrs.std = std
         else:  # data is already normalized
-- 
2.43.0


From f3f90e01539df1911c4911e0397bb76bf16daf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 24/27] fix: normalize_hdf5 does not change the given std, and
 accepts a list

---
 hpelm/modules/hdf5_tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index f5ed0b5..089a8f4 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -145,6 +145,7 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
         assert len(std) == d, msg2
         node.attrs.mean = mean
         node.attrs.std = std
+    std = np.array(std, dtype=np.float64)  # do not change the given vector
     std[std == 0] = 1  # prevent division by zero for std=0
 
     print("applying normalization")
-- 
2.43.0


From 9506578008d2db0be4d6c194172c09fa6315c648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 25/27] fix: preparing the files of HH and HT holds their
 inter-process locks

---
 hpelm/modules/hdf5_tools.py | 70 +++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 089a8f4..fe958df 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -33,40 +33,42 @@ def _prepare_fHH(fHH, fHT, nnet, precision):
         outputs = nnet.outputs
         norm = nnet.norm
 
-        # process fHH
-        if os.path.isfile(fHH):
-            h5 = open_file(fHH, 'r')
-            node = None
-            for node in h5.walk_nodes():
-                pass  # find a node with whatever name
-            try:
-                assert node is not None, f"Matrix in {fHH} does not exist"
-                s0 = node.shape[0]
-                msg = f"Matrix in {fHH} has a wrong shape: ({L}, {L}) expected, ({s0}, {s0}) found"
-                assert node is not None and node.shape[0] == L and node.shape[1] == L, msg
-            except AssertionError:
-                raise  # re-raise same error
-            finally:
-                h5.close()
-        else:
-            make_hdf5(np.eye(L, L, dtype=precision)*norm, fHH, precision)
-
-        # process fHT
-        if os.path.isfile(fHT):
-            h5 = open_file(fHT, 'r')
-            node = None
-            for node in h5.walk_nodes():
-                pass  # find a node with whatever name
-            try:
-                assert node is not None, f"Matrix in {fHT} does not exist"
-                msg = f"Matrix in {fHT} has a wrong shape: ({L}, {outputs}) expected, ({node.shape[0]}, {node.shape[1]}) found"
-                assert node is not None and node.shape[0] == L and node.shape[1] == outputs, msg
-            except AssertionError:
-                raise  # re-raise same error
-            finally:
-                h5.close()
-        else:
-            make_hdf5((L, outputs), fHT, precision)
+        # process fHH, other processes can create or update it at the same time
+        with fasteners.InterProcessLock(fHH + ".lock"):
+            if os.path.isfile(fHH):
+                h5 = open_file(fHH, 'r')
+                node = None
+                for node in h5.walk_nodes():
+                    pass  # find a node with whatever name
+                try:
+                    assert node is not None, f"Matrix in {fHH} does not exist"
+                    s0 = node.shape[0]
+                    msg = f"Matrix in {fHH} has a wrong shape: ({L}, {L}) expected, ({s0}, {s0}) found"
+                    assert node is not None and node.shape[0] == L and node.shape[1] == L, msg
+                except AssertionError:
+                    raise  # re-raise same error
+                finally:
+                    h5.close()
+            else:
+                make_hdf5(np.eye(L, L, dtype=precision)*norm, fHH, precision)
+
+        # process fHT, other processes can create or update it at the same time
+        with fasteners.InterProcessLock(fHT + ".lock"):
+            if os.path.isfile(fHT):
+                h5 = open_file(fHT, 'r')
+                node = None
+                for node in h5.walk_nodes():
+                    pass  # find a node with whatever name
+                try:
+                    assert node is not None, f"Matrix in {fHT} does not exist"
+                    msg = f"Matrix in {fHT} has a wrong shape: ({L}, {outputs}) expected, ({node.shape[0]}, {node.shape[1]}) found"
+                    assert node is not None and node.shape[0] == L and node.shape[1] == outputs, msg
+                except AssertionError:
+                    raise  # re-raise same error
+                finally:
+                    h5.close()
+            else:
+                make_hdf5((L, outputs), fHT, precision)
 
 
 def _write_fHH(fHH, fHT, HH, HT):
-- 
2.43.0


From 0fab07c8852d52fc3e12a8dca61777a333019789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:53 +0000
Subject: [PATCH 26/27] fix: make_hdf5 keeps the shape of a compressed text
 file with one row

---
 hpelm/modules/hdf5_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index fe958df..5fd06a1 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -182,7 +182,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
     elif isinstance(data, string_types) and data[-3:] in ['npy']:
         X = np.load(data)
     elif isinstance(data, string_types) and data[-3:] in ['.gz', 'bz2']:
-        X = np.loadtxt(data, dtype=dtype, delimiter=delimiter, skiprows=skiprows)
+        X = np.loadtxt(data, dtype=dtype, delimiter=delimiter, skiprows=skiprows, ndmin=2)
     elif isinstance(data, string_types) and data[-3:] in ['txt', 'csv']:
         # iterative out-of-memory loader for huge .csv/.txt files
         fill = "iter"
-- 
2.43.0


From 00025d2eee2476caa05a7593245c25bfa6df5875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:52 +0000
Subject: [PATCH 27/27] fix: report the number of neurons that the many-output
 ranking really returns

---
 hpelm/elm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 53f40ad..5f483ce 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -534,6 +534,7 @@ class ELM(object):
                 rank = mrsr(H, T, L)
             else:  # slow mrsr for many outputs but O(t) in outputs
                 rank = mrsr2(H, T, L)
+                L = len(rank)  # not more than samples
         else:  # random ranking
             rank = np.arange(L)
             np.random.shuffle(rank)
-- 
2.43.0

