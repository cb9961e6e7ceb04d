From c6e1b258edc597082a3a48442a078fdf50de6fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:35 +0000
Subject: [PATCH 01/30] fix: start the CAR(1) sampler inside the prior support

The starting value of log(omega) was compared with max_freq itself instead
of its logarithm and was never bounded from below. For short time series
the chain usually started at a point with zero prior density, and because
moves away from an infinite log-density are rejected it stayed there for
the whole run. The starting standard deviation is now bounded as well.
---
 src/carpack.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carpack.cpp b/src/carpack.cpp
index 682a4aa..6cbed6b 100644
--- a/src/carpack.cpp
+++ b/src/carpack.cpp
@@ -43,6 +43,7 @@ arma::vec CAR1::StartingValue()
 	// by drawing from its prior
 	car1_stdev_start = RandGen.scaled_inverse_chisqr(y_.n_elem-1, arma::var(y_));
 	car1_stdev_start = sqrt(car1_stdev_start);
+	car1_stdev_start = std::min(car1_stdev_start, 0.99 * max_stdev_);
     
     // Get initial value of the time series mean
     double mu = RandGen.normal(arma::mean(y_), car1_stdev_start / y_.n_elem);
@@ -53,7 +54,8 @@ arma::vec CAR1::StartingValue()
 	
     arma::vec dt = time_(arma::span(1,time_.n_elem-1)) - time_(arma::span(0,time_.n_elem-2));
 	log_omega_start = -1.0 * log(arma::median(dt) * RandGen.uniform( 1.0, 50.0 ));
-	log_omega_start = std::min(log_omega_start, max_freq_);
+	log_omega_start = std::min(log_omega_start, log(0.99 * max_freq_));
+	log_omega_start = std::max(log_omega_start, log(1.01 * min_freq_));
 	
 	sigma = car1_stdev_start * sqrt(2.0 * exp(log_omega_start));
 	
-- 
2.43.0


From d72ab0c37cebe340f742f356a6c09b18ed4e00c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:35 +0000
Subject: [PATCH 02/30] fix: sample the posterior when a single chain is
 requested

With one chain the temperature grid contained only its upper limit, so the
recorded chain ran at temperature 100 instead of temperature 1.
---
 src/carmcmc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carmcmc.cpp b/src/carmcmc.cpp
index 444ab1e..04a0e04 100644
--- a/src/carmcmc.cpp
+++ b/src/carmcmc.cpp
@@ -93,6 +93,8 @@ RunCarmaSampler(int sample_size, int burnin, std::vector<double> time, std::vect
     
     arma::vec temp_ladder = arma::linspace<arma::vec>(0.0, log(max_temperature), nwalkers);
     temp_ladder = arma::exp(temp_ladder);
+    // linspace returns its upper limit when asked for a single value
+    temp_ladder(0) = 1.0;
     
     Ensemble<CARp> CarEnsemble;
     // Add the parameters to the ensemble, starting with the coolest chain
-- 
2.43.0


From 077f9df0fef96ced638c2dd59604e5c4eb01fe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:35 +0000
Subject: [PATCH 03/30] fix: make get_mle work with a single job

In python 3 map returns an iterator, which cannot be indexed.
---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index bcc5a9c..50806a3 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -109,7 +109,7 @@ class CarmaModel(object):
         args = [(p, q, self.time, self.y, self.ysig)] * ntrials
 
         if njobs == 1:
-            MLEs = map(_get_mle_single, args)
+            MLEs = list(map(_get_mle_single, args))
         else:
             # use multiple processors
             pool = multiprocessing.Pool(njobs)
-- 
2.43.0


From c3a0e572dcd9b514f8a7cc4230fe1e533a24d575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:35 +0000
Subject: [PATCH 04/30] fix: make add_mle work in python 3

range needs integer arguments.
---
 src/carmcmc/carma_pack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 50806a3..2a43474 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -339,7 +339,7 @@ class CarmaSample(samplers.MCMCSample):
         psd_width = np.zeros(self.p)
         psd_cent = np.zeros(self.p)
 
-        for i in range(self.p / 2):
+        for i in range(self.p // 2):
             quad1 = quad_coefs[2 * i]
             quad2 = quad_coefs[2 * i + 1]
 
@@ -373,7 +373,7 @@ class CarmaSample(samplers.MCMCSample):
         else:
             quad_coefs = np.exp(MLE.x[3 + self.p:])
             ma_roots = np.empty(quad_coefs.size, dtype=complex)
-            for i in range(self.q / 2):
+            for i in range(self.q // 2):
                 quad1 = quad_coefs[2 * i]
                 quad2 = quad_coefs[2 * i + 1]
 
-- 
2.43.0


From 5b694cbcd7fc14374d6517ee46c6f1c42a825232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:35 +0000
Subject: [PATCH 05/30] fix: store the log-likelihood without the prior in
 CarmaSample

getLogDensity includes the prior on the measurement error scale, so
'loglik' was identical to 'logpost' for p > 1, unlike for p = 1. The sampler
was also left with its prior bounds switched off.
---
 src/carmcmc/carma_pack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 2a43474..1d4f89a 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -309,8 +309,8 @@ class CarmaSample(samplers.MCMCSample):
         for i in range(logpost.size):
             std_theta = carmcmcLib.vecD()
             std_theta.extend(trace[i, :])
-            # loglik[i] = logpost[i] - sampler.getLogPrior(std_theta)
-            loglik[i] = sampler.getLogDensity(std_theta)
+            loglik[i] = sampler.getLogDensity(std_theta) - sampler.getLogPrior(std_theta)
+        sampler.SetMLE(False)
 
         self._samples['loglik'] = loglik
 
-- 
2.43.0


From c1e9259313da15f929d61db7ac0d5e980fd9766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:35 +0000
Subject: [PATCH 06/30] fix: use integer indices to subsample the CAR(1) power
 spectrum

---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 1d4f89a..f8d90ad 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -978,7 +978,7 @@ class Car1Sample(CarmaSample):
                 "nsamples must be less than the total number of MCMC samples."
 
             nsamples0 = sigmas.shape[0]
-            index = np.arange(nsamples) * (nsamples0 / nsamples)
+            index = (np.arange(nsamples) * (nsamples0 / nsamples)).astype(int)
             sigmas = sigmas[index]
             log_omegas = log_omegas[index]
 
-- 
2.43.0


From d0e1a8ed5c1ba6c62e709191d3204274b4533191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:35 +0000
Subject: [PATCH 07/30] fix: respect qmax in choose_order

---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index f8d90ad..5c5a272 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -162,7 +162,7 @@ class CarmaModel(object):
         if pqlist is None:
             pqlist = []
             for p in range(1, pmax+1):
-                for q in range(p):
+                for q in range(min(p, qmax + 1)):
                     pqlist.append((p, q))
 
         MLEs = []
-- 
2.43.0


From a78506c843a5dc94338456705b419acdd51b524f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:35 +0000
Subject: [PATCH 08/30] fix: reject CarmaModel orders with q >= p

The comparison was evaluated but its result was ignored.
---
 src/carmcmc/carma_pack.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 5c5a272..7897a67 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -24,10 +24,8 @@ class CarmaModel(object):
         :param p: The order of the autoregressive (AR) polynomial. Default is p = 1.
         :param q: The order of the moving average (MA) polynomial. Default is q = 0. Note that p > q.
         """
-        try:
-            p > q
-        except ValueError:
-            " Order of AR polynomial, p, must be larger than order of MA polynomial, q."
+        if p <= q:
+            raise ValueError("Order of AR polynomial, p, must be larger than order of MA polynomial, q.")
 
         # check that time values are unique and in ascending ordered
         s_idx = np.argsort(time)
-- 
2.43.0


From 93b29e5836b13e07b9ceccce8824a1005f6ce953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:35 +0000
Subject: [PATCH 09/30] fix: use the ZCAR moving average coefficients in its
 likelihood

ZCAR declared its own copy of the coefficients, which hid the ones used by
the methods it inherits, so its posterior was that of a CAR(p) model.
---
 src/include/carpack.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/carpack.hpp b/src/include/carpack.hpp
index 5cb173f..417b2b6 100644
--- a/src/include/carpack.hpp
+++ b/src/include/carpack.hpp
@@ -331,7 +331,6 @@ public:
 protected:
     int p_; // Order of the CAR(p) process
     bool order_lorentzians_; // force the lorentzian centroids to be in order?
-private:
     arma::vec ma_coefs_;
 };
 
@@ -359,7 +358,6 @@ public:
     }
 private:
     double kappa_; // minimum frequency resolved by the observation times
-    arma::vec ma_coefs_;
 };
 
 /*
-- 
2.43.0


From fe349640e2a399d8f3a2de0063af99f6f2e5c454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:10 +0000
Subject: [PATCH 10/30] fix: return simulated values in the order of the
 requested times

Simulate sorts the times, and returned the values in sorted order even when
the caller asked for unsorted times.
---
 src/include/kfilter.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/include/kfilter.hpp b/src/include/kfilter.hpp
index 1e17728..59ce87a 100644
--- a/src/include/kfilter.hpp
+++ b/src/include/kfilter.hpp
@@ -140,7 +140,8 @@ public:
         
         arma::vec ysimulated(time.n_elem);
         
-        time = arma::sort(time);
+        arma::uvec order = arma::sort_index(time);
+        time = time.elem(order);
         unsigned int insert_idx = 0;
         arma::vec tinsert(1);
         arma::vec dt_insert(1);
@@ -151,7 +152,7 @@ public:
             insert_idx = 0;
             // first simulate the value at time(i)
             std::pair<double, double> ypredict = this->Predict(time(i));
-            ysimulated(i) = RandGen.normal(ypredict.first, sqrt(ypredict.second));
+            ysimulated(order(i)) = RandGen.normal(ypredict.first, sqrt(ypredict.second));
             // find the index where time_[insert_idx-1] < time(i) < time_[insert_idx]
             while (time_(insert_idx) < time(i)) {
                 insert_idx++;
@@ -164,7 +165,7 @@ public:
             tinsert(0) = time(i);
             time_.insert_rows(insert_idx, tinsert);
             dt_ = time_(arma::span(1,time_.n_elem-1)) - time_(arma::span(0,time_.n_elem-2));
-            yinsert(0) = ysimulated(i);
+            yinsert(0) = ysimulated(order(i));
             y_.insert_rows(insert_idx, yinsert);
             yerr_.insert_rows(insert_idx, yerr_insert);
             mean.zeros(time_.n_elem);
-- 
2.43.0


From 80e2e08b5e44af556de6267cbe9ae22f1142be0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:10 +0000
Subject: [PATCH 11/30] fix: predict at a time measured without error

Interpolating at the time of a measurement with zero error divided zero by
zero and returned NaN. The same happened when the same time was requested
twice from Simulate.
---
 src/include/kfilter.hpp |  4 ++++
 src/kfilter.cpp         | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/include/kfilter.hpp b/src/include/kfilter.hpp
index 59ce87a..e45b44e 100644
--- a/src/include/kfilter.hpp
+++ b/src/include/kfilter.hpp
@@ -153,6 +153,10 @@ public:
             // first simulate the value at time(i)
             std::pair<double, double> ypredict = this->Predict(time(i));
             ysimulated(order(i)) = RandGen.normal(ypredict.first, sqrt(ypredict.second));
+            if (ypredict.second == 0.0) {
+                // this value is already part of the time series, so there is nothing to insert
+                continue;
+            }
             // find the index where time_[insert_idx-1] < time(i) < time_[insert_idx]
             while (time_(insert_idx) < time(i)) {
                 insert_idx++;
diff --git a/src/kfilter.cpp b/src/kfilter.cpp
index 77696c3..2b749cb 100644
--- a/src/kfilter.cpp
+++ b/src/kfilter.cpp
@@ -83,6 +83,11 @@ std::pair<double, double> KalmanFilter1::Predict(double time) {
         }
     }
         
+    if ((ipredict < time_.n_elem) && (time == time_(ipredict)) && (yerr_(ipredict) == 0.0)) {
+        // the time series was measured without error at this time, so we already know its value
+        return std::pair<double, double>(y_(ipredict), 0.0);
+    }
+    
     // Run the Kalman filter up to the point time_[ipredict-1]
     Reset();
     for (std::uint64_t i=1; i<ipredict; i++) {
@@ -227,6 +232,11 @@ std::pair<double, double> KalmanFilterp::Predict(double time) {
         }
     }
     
+    if ((ipredict < time_.n_elem) && (time == time_(ipredict)) && (yerr_(ipredict) == 0.0)) {
+        // the time series was measured without error at this time, so we already know its value
+        return std::pair<double, double>(y_(ipredict), 0.0);
+    }
+    
     // Run the Kalman filter up to the point time_[ipredict-1]
     Reset();
     for (std::uint64_t i=1; i<ipredict; i++) {
-- 
2.43.0


From dbb0b17b21a29fdc015a935e5c0ea87bc890a928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:10 +0000
Subject: [PATCH 12/30] fix: draw all starting values from the seeded generator

The starting values of the AR and MA parameters came from the generator of
the linear algebra library, so a run could not be repeated by setting the
seed.
---
 src/carpack.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/carpack.cpp b/src/carpack.cpp
index 6cbed6b..0bf97b6 100644
--- a/src/carpack.cpp
+++ b/src/carpack.cpp
@@ -273,7 +273,9 @@ arma::vec CARp::StartingAR() {
     // Obtain initial values for Lorentzian centroids (= system frequencies) and
     // widths (= break frequencies)
     arma::vec lorentz_cent((p_+1)/2);
-    lorentz_cent.randu();
+    for (std::uint64_t i=0; i<lorentz_cent.n_elem; i++) {
+        lorentz_cent(i) = RandGen.uniform();
+    }
     lorentz_cent = log(max_freq_ / min_freq) * lorentz_cent + log(min_freq);
     lorentz_cent = arma::exp(lorentz_cent);
     
@@ -281,7 +283,9 @@ arma::vec CARp::StartingAR() {
     lorentz_cent = arma::sort(lorentz_cent, "descend");
     
     arma::vec lorentz_width((p_+1)/2);
-    lorentz_width.randu();
+    for (std::uint64_t i=0; i<lorentz_width.n_elem; i++) {
+        lorentz_width(i) = RandGen.uniform();
+    }
     lorentz_width = log(max_freq_ / min_freq) * lorentz_width + log(min_freq);
     lorentz_width = arma::exp(lorentz_width);
     
@@ -516,7 +520,9 @@ arma::vec CARMA::SetStartingValue(arma::vec init)
 // get initial guess for the moving average polynomial coefficients
 arma::vec CARMA::StartingMA() {
     arma::vec ma_quad(q_);
-    ma_quad.randn();
+    for (std::uint64_t i=0; i<ma_quad.n_elem; i++) {
+        ma_quad(i) = RandGen.normal();
+    }
     return arma::abs(ma_quad);
 }
 
-- 
2.43.0


From c99cdae76e03bde554db2e411cdd2de42257288f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:10 +0000
Subject: [PATCH 13/30] fix: accept lists of MA coefficients and integer times
 in carma_process

A list with p moving average coefficients raised an exception, and the
values simulated at integer times were truncated to integers.
---
 src/carmcmc/carma_pack.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 7897a67..613156d 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -1162,12 +1162,13 @@ def carma_process(time, sigsqr, ar_roots, ma_coefs=[1.0]):
 
     if p == 1:
         # generate a CAR(1) process
-        return car1_process(time, sigsqr, -1.0 / ar_roots.item())
+        return car1_process(time, sigsqr, -1.0 / ar_roots.item().real)
 
+    ma_coefs = np.array(ma_coefs)
     if len(ma_coefs) < p:
         # add extra zeros to end of ma_coefs
         q = len(ma_coefs)
-        ma_coefs = np.resize(np.array(ma_coefs), len(ar_roots))
+        ma_coefs = np.resize(ma_coefs, len(ar_roots))
         ma_coefs[q:] = 0.0
 
     time.sort()
@@ -1227,7 +1228,7 @@ def carma_process(time, sigsqr, ar_roots, ma_coefs=[1.0]):
     kalman_var = np.real((rotated_MA_coefs * PredictionVar * rotated_MA_coefs.H).item())
 
     # simulate the first time series value
-    y = np.empty_like(time)
+    y = np.empty(time.size)
     y[0] = np.random.normal(kalman_mean, np.sqrt(kalman_var))
 
     # Initialize the innovations, i.e., the KF residuals
-- 
2.43.0


From 995b6b1364dff0ec8a9bc5231a0fc5e5a70cc106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:10 +0000
Subject: [PATCH 14/30] fix: keep simulated values aligned with the times
 passed to carma_process

The array of times supplied by the caller was sorted in place, and for p = 1
unsorted times gave NaN.
---
 src/carmcmc/carma_pack.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 613156d..bc12f5c 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -1160,6 +1160,13 @@ def carma_process(time, sigsqr, ar_roots, ma_coefs=[1.0]):
 
     p = len(ar_roots)
 
+    # generate the process in time order without changing the array of the caller
+    order = np.argsort(time, kind="stable")
+    if np.any(order[1:] < order[:-1]):
+        y = np.empty(len(time))
+        y[order] = carma_process(np.asarray(time)[order], sigsqr, ar_roots, ma_coefs)
+        return y
+
     if p == 1:
         # generate a CAR(1) process
         return car1_process(time, sigsqr, -1.0 / ar_roots.item().real)
@@ -1171,7 +1178,6 @@ def carma_process(time, sigsqr, ar_roots, ma_coefs=[1.0]):
         ma_coefs = np.resize(ma_coefs, len(ar_roots))
         ma_coefs[q:] = 0.0
 
-    time.sort()
     # make sure process is stationary
     try:
         np.any(ar_roots.real < 0)
-- 
2.43.0


From 47408959a59cb6ece60e2fa2c0c62c215dedd3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:10 +0000
Subject: [PATCH 15/30] fix: use a random draw when asked for one with a CAR(1)
 sample

predict and simulate accept bestfit='random', but the posterior mean was
used for p = 1.
---
 src/carmcmc/carma_pack.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index bc12f5c..aafb369 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -932,6 +932,12 @@ class Car1Sample(CarmaSample):
             sigsqr = np.median(self._samples['sigma']) ** 2
             mu = np.median(self._samples['mu'])
             log_omega = np.median(self._samples['log_omega'])
+        elif bestfit == 'random':
+            # use a random draw from the posterior
+            random_index = np.random.randint(self._samples['sigma'].shape[0])
+            sigsqr = (self._samples['sigma'][random_index] ** 2)[0]
+            mu = self._samples['mu'][random_index][0]
+            log_omega = self._samples['log_omega'][random_index][0]
         else:
             # use posterior mean as the best-fit
             sigsqr = np.mean(self._samples['sigma'] ** 2)
-- 
2.43.0


From e9aa6b265c6c4ea752309a6a1d8a6c04b814870c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:10 +0000
Subject: [PATCH 16/30] fix: make assess_fit work with fewer than 51
 measurements

---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index aafb369..311423f 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -740,7 +740,7 @@ class CarmaSample(samplers.MCMCSample):
         # plot the autocorrelation function of the residuals and compare with the 95% confidence intervals for white
         # noise
         plt.subplot(223)
-        maxlag = 50
+        maxlag = min(50, self.time.size - 1)
         wnoise_upper = 1.96 / np.sqrt(self.time.size)
         wnoise_lower = -1.96 / np.sqrt(self.time.size)
         plt.fill_between([0, maxlag], wnoise_upper, wnoise_lower, facecolor='grey')
-- 
2.43.0


From 16a1fdc2a6f51c1235e936230695129078adb27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:29 +0000
Subject: [PATCH 17/30] fix: do not record untracked parameters updated by a
 Gibbs step

Unlike the other steps, GibbsStep ignored the tracking flag of its
parameter.
---
 src/include/steps.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/include/steps.hpp b/src/include/steps.hpp
index 5bb3758..2f41845 100644
--- a/src/include/steps.hpp
+++ b/src/include/steps.hpp
@@ -95,6 +95,11 @@ public:
 		return parameter_.StringValue();
 	}
     
+    // Is the parameter tracked?
+    bool ParameterTrack() {
+        return parameter_.Track();
+    }
+    
     // Return a pointer to the parameter
     BaseParameter* GetParPointer() {
         return &parameter_;
-- 
2.43.0


From 1d4bb30011a723fa737c005fbf09e8a3e0ae5eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:29 +0000
Subject: [PATCH 18/30] fix: evaluate the posterior on the sorted time series

The Kalman filter sorts its data and removes duplicate times, but the
posterior classes kept the original vectors and combined both. With unsorted
times the values were paired with the wrong times and the prior bounds were
negative, and with duplicate times the vectors had different lengths.
---
 src/include/carpack.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/include/carpack.hpp b/src/include/carpack.hpp
index 417b2b6..c045df0 100644
--- a/src/include/carpack.hpp
+++ b/src/include/carpack.hpp
@@ -233,6 +233,14 @@ public:
     void SetMLE(bool ignore_prior) {ignore_prior_ = ignore_prior;}
     
 protected:
+    // use the data vectors of the Kalman Filter, which are sorted and have unique time values
+    void UseFilterData() {
+        time_ = pKFilter_->GetTime();
+        y_ = pKFilter_->GetTimeSeries();
+        yerr_ = pKFilter_->GetTimeSeriesErr();
+        SetPrior(10.0 * sqrt(arma::var(y_)));
+    }
+    
     // time series data
     arma::vec time_;
     arma::vec y_;
@@ -257,6 +265,7 @@ public:
          double temperature=1.0) : CARMA_Base<double>(track, name, time, y, yerr, temperature)
     {
         pKFilter_ = std::make_shared<KalmanFilter1>(time_, y_, yerr_);
+        UseFilterData();
         // Set the size of the parameter vector theta=(mu,sigma,measerr_scale,log(omega))
         value_.set_size(4);
     }
@@ -290,6 +299,7 @@ public:
          double temperature=1.0): CARMA_Base<arma::cx_vec>(track, name, time, y, yerr, temperature), p_(p)
 	{
         pKFilter_ = std::make_shared<KalmanFilterp>(time_, y_, yerr_);
+        UseFilterData();
 		value_.set_size(p_+3);
         ma_coefs_ = arma::zeros(p);
         ma_coefs_(0) = 1.0;
-- 
2.43.0


From f6fd10f104427e641d9172ba23dcb59268aadcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:18 +0000
Subject: [PATCH 19/30] fix: do not report a failed optimisation as the
 maximum-likelihood fit when another trial succeeded

A trial can end with an objective of NaN. Comparisons with NaN are false, so a NaN
in the first trial hid the results of all other trials.
---
 src/carmcmc/carma_pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 311423f..3e2e9a4 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -118,7 +118,8 @@ class CarmaModel(object):
 
         best_MLE = MLEs[0]
         for MLE in MLEs:
-            if MLE.fun < best_MLE.fun:  # note that MLE.fun is -loglik since we use scipy.optimize.minimize
+            # note that MLE.fun is -loglik since we use scipy.optimize.minimize
+            if MLE.fun < best_MLE.fun or np.isnan(best_MLE.fun):
                 # new MLE found, save this value
                 best_MLE = MLE
 
-- 
2.43.0


From b78c392150b486a1160b4faeae34688a4eae566e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:03 +0000
Subject: [PATCH 20/30] fix: rotated input vector of the Kalman filter for
 roots of very different size

The Vandermonde system for the input vector was solved numerically. For
characteristic roots of very different size the solution lost all accuracy,
and forecasts and likelihoods were wrong. The solution is known in closed
form, so use that.
---
 src/kfilter.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/kfilter.cpp b/src/kfilter.cpp
index 2b749cb..3ade3b0 100644
--- a/src/kfilter.cpp
+++ b/src/kfilter.cpp
@@ -153,14 +153,18 @@ void KalmanFilterp::Reset() {
 		EigenMat.row(i) = strans(arma::pow(omega_, i));
 	}
     
-	// Input vector under original state space representation
-	arma::cx_vec Rvector = arma::zeros<arma::cx_vec>(p_);
-	Rvector(p_-1) = 1.0;
-    
 	// Transform the input vector to the rotated state space representation.
-	// The notation R and J comes from Belcher et al. (1994).
-	arma::cx_vec Jvector(p_);
-	Jvector = arma::solve(EigenMat, Rvector);
+	// The notation R and J comes from Belcher et al. (1994). EigenMat is a Vandermonde
+	// matrix and the input vector only has a last component, so the solution is known.
+	// A numerical solution is not accurate for roots of very different size.
+	arma::cx_vec Jvector = arma::ones<arma::cx_vec>(p_);
+	for (std::uint64_t i=0; i<p_; i++) {
+		for (std::uint64_t j=0; j<p_; j++) {
+			if (j != i) {
+				Jvector(i) /= omega_(i) - omega_(j);
+			}
+		}
+	}
 	
 	// Transform the moving average coefficients to the space spanned by EigenMat.
 
-- 
2.43.0


From 497e214e71c31c1e0bca37bf0a21a7266a17f9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:12 +0000
Subject: [PATCH 21/30] fix: order of the centroids for times in large units

The prior requires the Lorentzian centroids to be in decreasing order. The
comparison used an absolute tolerance of 1e-8, so with times in seconds and
frequencies below 1e-8 the order was never enforced. Make the tolerance
relative to the highest frequency.
---
 src/carpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carpack.cpp b/src/carpack.cpp
index 0bf97b6..e6bea76 100644
--- a/src/carpack.cpp
+++ b/src/carpack.cpp
@@ -360,7 +360,7 @@ bool CARp::CheckPriorBounds(arma::vec theta)
         // Make sure the Lorentzian centroids are still in decreasing order
         for (std::uint64_t i=1; i<lorentz_cent.n_elem; i++) {
             double lorentz_cent_difference = lorentz_cent(i) - lorentz_cent(i-1);
-            if (lorentz_cent_difference > 1e-8) {
+            if (lorentz_cent_difference > 1e-8 * max_freq_) {
                 // Lorentzians are not in decreasing order, reject this proposal
                 prior_satisfied = false;
             }
-- 
2.43.0


From 6b83d70e6cf9fc4cebd059b18c1f27f964102b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:12 +0000
Subject: [PATCH 22/30] fix: roots of small positive centroids in get_ar_roots

A pair of complex roots is documented for every centroid above zero, but
centroids below 1e-10 were treated as zero and one root of the pair was lost.
---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 3e2e9a4..5eacb49 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -1053,7 +1053,7 @@ def get_ar_roots(qpo_width, qpo_centroid):
     ar_roots = []
     for i in range(len(qpo_centroid)):
         ar_roots.append(qpo_width[i] + 1j * qpo_centroid[i])
-        if qpo_centroid[i] > 1e-10:
+        if qpo_centroid[i] > 0:
             # lorentzian is centered at a frequency > 0, so add complex conjugate of this root
             ar_roots.append(np.conjugate(ar_roots[-1]))
     if len(qpo_width) - len(qpo_centroid) == 1:
-- 
2.43.0


From 6cc5e6e85fdfc0de98946986b970c7cc2a23ef05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:12 +0000
Subject: [PATCH 23/30] fix: density correction of the stretch move for small
 parameter values

Proposals that differ from the current value by less than 1e-10 in every
component were taken to be equal to it, and the correction was lost. Only
compare for equality.
---
 src/include/proposals.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/include/proposals.hpp b/src/include/proposals.hpp
index a27580d..6d50cab 100644
--- a/src/include/proposals.hpp
+++ b/src/include/proposals.hpp
@@ -233,9 +233,7 @@ public:
 		arma::vec current_value = this->ensemble_[this->parameter_index_].Value();
 		
 		// Does the proposed parameter value = current parameter value?
-        arma::vec etol(new_value.n_elem);
-        etol.fill(1e-10);
-		arma::uvec equal_vector = (arma::abs(current_value - new_value) < etol);
+		arma::uvec equal_vector = (current_value == new_value);
 		
 		if (arma::sum(equal_vector) == equal_vector.size()) {
 			// We are calculating the density of the proposed -> current transition kernel,
-- 
2.43.0


From 9a77dc8858803f40532e3f34c9c1324af811d903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:12 +0000
Subject: [PATCH 24/30] fix: show the interpolation of assess_fit over the
 whole time series

The first interpolated time was 1.001 times the first measured one. For times
that do not start near zero, such as Julian dates, part or all of the series
was left out, and the curve could run backwards beyond the last measurement.
---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 5eacb49..d580eb0 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -700,7 +700,7 @@ class CarmaSample(samplers.MCMCSample):
 
         fig = plt.figure()
         # compute the marginal mean and variance of the predicted values
-        time_predict = np.linspace(1.001 * self.time.min(), self.time.max(), nplot)
+        time_predict = np.linspace(self.time.min(), self.time.max(), nplot)
         predicted_mean, predicted_var = self.predict(time_predict, bestfit=bestfit)
         predicted_low = predicted_mean - np.sqrt(predicted_var)
         predicted_high = predicted_mean + np.sqrt(predicted_var)
-- 
2.43.0


From da94cba6ce41e4d5a83f03d1cd12fd8c718ba410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:12 +0000
Subject: [PATCH 25/30] fix: name of a parameter read from a file

The name kept the newline at the end of the first line, so the samples could
not be found under the name in the file.
---
 src/carmcmc/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/samplers.py b/src/carmcmc/samplers.py
index 2ba43ac..c2f0403 100644
--- a/src/carmcmc/samplers.py
+++ b/src/carmcmc/samplers.py
@@ -64,7 +64,7 @@ class MCMCSample(object):
         # TODO: put in exceptions to make sure files are ready correctly
         for fname in filename:
             file = open(fname, 'r')
-            name = file.readline()
+            name = file.readline().strip()
             # Grab the MCMC output
             trace = np.genfromtxt(fname, skip_header=1)
             if name not in self._samples:
-- 
2.43.0


From ab5ec6f2cf555dbcdc8f1511f0b9a1ab13fb0187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:12 +0000
Subject: [PATCH 26/30] fix: contour levels of plot_2dkde for parameters with
 large values

The density of such parameters is small, and the default absolute tolerance
of the root finder is larger than the levels themselves.
---
 src/carmcmc/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/samplers.py b/src/carmcmc/samplers.py
index c2f0403..7072bab 100644
--- a/src/carmcmc/samplers.py
+++ b/src/carmcmc/samplers.py
@@ -239,7 +239,7 @@ class MCMCSample(object):
         clevels = []
         for frac in [0.9973, 0.9545, 0.6827]:
             hfrac = lambda level, hist=hist, frac=frac: hist[hist>=level].sum()/hist.sum() - frac
-            level = scipy.optimize.bisect(hfrac, hist.min(), hist.max())
+            level = scipy.optimize.bisect(hfrac, hist.min(), hist.max(), xtol=1e-12 * hist.max())
             clevels.append(level)
 
         # joint distribution
-- 
2.43.0


From b66921fce93a5cc2d654ddf625d224f7874823d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:12 +0000
Subject: [PATCH 27/30] fix: plot_2dkde with current versions of matplotlib

Contour sets no longer have a list of collections. Take the path of the outer
contour from the contour set itself.
---
 src/carmcmc/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/samplers.py b/src/carmcmc/samplers.py
index 7072bab..7c203be 100644
--- a/src/carmcmc/samplers.py
+++ b/src/carmcmc/samplers.py
@@ -262,7 +262,7 @@ class MCMCSample(object):
         # Also a note: this does not work if the outer contour is not
         # fully connected.
         if doPlotStragglers:
-            outer = cont.collections[0]._paths
+            outer = [cont.get_paths()[0]]
             sx = []
             sy = []
             for i in range(npts):
-- 
2.43.0


From 49094a5dcdd3beb93eb426a61abc1a83a4cc3ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:12 +0000
Subject: [PATCH 28/30] fix: Python Kalman filter for a process of order one

The second row of the matrix of eigenvectors was always written, which raised
an IndexError when there is only one root.
---
 src/carmcmc/carma_pack.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index d580eb0..05d5d34 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -1305,8 +1305,7 @@ class KalmanFilterDeprecated(object):
         # Setup the matrix of Eigenvectors for the Kalman Filter transition matrix. This allows us to transform
         # quantities into the rotated state basis, which makes the computations for the Kalman filter easier and faster.
         EigenMat = np.ones((self.p, self.p), dtype=complex)
-        EigenMat[1, :] = self.ar_roots
-        for k in range(2, self.p):
+        for k in range(1, self.p):
             EigenMat[k, :] = self.ar_roots ** k
 
         # Input vector under the original state space representation
-- 
2.43.0


From 4ff6f97e9734d233a0742ade801cfafef26139e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:21:27 +0000
Subject: [PATCH 29/30] fix: recompute the gaps between measurements when the
 times of a Kalman filter are replaced

---
 src/include/kfilter.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/include/kfilter.hpp b/src/include/kfilter.hpp
index e45b44e..f372f01 100644
--- a/src/include/kfilter.hpp
+++ b/src/include/kfilter.hpp
@@ -78,6 +78,9 @@ public:
     // Methods to set and get the data
     void SetTime(arma::vec& time) {
         time_ = time;
+        dt_ = time_(arma::span(1,time_.n_elem-1)) - time_(arma::span(0,time_.n_elem-2));
+        mean.zeros(time_.n_elem);
+        var.zeros(time_.n_elem);
     }
     arma::vec GetTime() {
         return time_;
-- 
2.43.0


From 15bb238cc7df0ef0637e83313572301db69a72e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:21:27 +0000
Subject: [PATCH 30/30] fix: power-law variates of slope -1 are log-uniform
 instead of constant

---
 src/random.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/random.cpp b/src/random.cpp
index bfe022c..7e5481d 100644
--- a/src/random.cpp
+++ b/src/random.cpp
@@ -143,6 +143,9 @@ double RandomGenerator::powerlaw(double lower, double upper, double slope)
 	// First draw Y ~ Uniform(0,1)
 	double unif = uniform(0.0, 1.0);
 	
+	// The logarithm of X is uniform when slope = -1
+	if (slope == -1.0) return lower * pow(upper / lower, unif);
+	
 	// Now do transformation Y -> X such that X ~ Powerlaw(slope,lower,upper)
 	double power = 1.0 / (slope + 1.0);
 	double base_value= (pow(upper, slope+1) - pow(lower, slope+1)) * unif + pow(lower,slope+1);
-- 
2.43.0

