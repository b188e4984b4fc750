From 15569ef49bc1f221814e562f0e43704cbc57b474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 01/53] fix: use the builtin int and float instead of the
 aliases removed from numpy

---
 pyparticleest/filter.py            | 16 ++++++++--------
 pyparticleest/paramest/paramest.py |  2 +-
 pyparticleest/smoother.py          |  4 ++--
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 9fdfae7..6a9fad4 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -355,8 +355,8 @@ class CSIRAS(SIR):
         ancestors[:-1] = sample(tmp, N - 1)
 
         #select ancestor for conditional trajectory
-        pind = numpy.asarray(range(N), dtype=numpy.int)
-        find = numpy.zeros((N,), dtype=numpy.int)
+        pind = numpy.asarray(range(N), dtype=int)
+        find = numpy.zeros((N,), dtype=int)
 
         wtrans = self.model.logp_xnext(particles=traj[cur_ind].pa.part,
                                        next_part=self.ctraj[cur_ind + 1].pa.part[find],
@@ -613,8 +613,8 @@ class CPFAS(CPF):
         ancestors[:-1] = sample(tmp, N - 1)
 
         #select ancestor for conditional trajectory
-        pind = numpy.asarray(range(N), dtype=numpy.int)
-        find = numpy.zeros((N,), dtype=numpy.int)
+        pind = numpy.asarray(range(N), dtype=int)
+        find = numpy.zeros((N,), dtype=int)
 
         wtrans = self.model.logp_xnext_singlestep(part=traj[cur_ind].pa.part[pind],
                                                   past_trajs=traj[:cur_ind],
@@ -738,8 +738,8 @@ class CPFYAS(CPFAS):
         ancestors[:-1] = sample(tmp, self.N - 1)
 
         #select ancestor for conditional trajectory
-        pind = numpy.arange(self.N, dtype=numpy.int)
-        find = numpy.zeros((self.N,), dtype=numpy.int)
+        pind = numpy.arange(self.N, dtype=int)
+        find = numpy.zeros((self.N,), dtype=int)
 
         wtrans = self.model.logp_xnext_singlestep(part=traj[cur_ind].pa.part[pind],
                                                   past_trajs=traj[:cur_ind],
@@ -857,7 +857,7 @@ class ParticleTrajectory(object):
         else:
             self.uvec = numpy.empty(1, dtype=utype)
             self.yvec = numpy.empty(1, dtype=ytype)
-            self.tvec = numpy.empty(1, dtype=numpy.float)
+            self.tvec = numpy.empty(1, dtype=float)
             self.T = 0
         #TODO, this isn't correctly used in the code, assumed = 0
         assert(t0 == 0)
@@ -1116,7 +1116,7 @@ class ParticleApproximation(object):
         new_ind = sample(numpy.exp(tmp), N)
         new_part = model.copy_ind(self.part, new_ind)
 
-        self.w = numpy.log(numpy.ones(N, dtype=numpy.float) / N)
+        self.w = numpy.log(numpy.ones(N, dtype=float) / N)
         self.part = new_part
         self.num = N
         self.w_offset = 0.0
diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 1e8f917..d4490ef 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -228,7 +228,7 @@ class ParamEstimationPSAEM(Simulator):
         if (callback is None):
             callback = default_callback
 
-        ind = numpy.asarray(range(num_part), dtype=numpy.int)
+        ind = numpy.asarray(range(num_part), dtype=int)
         i = 0;
         while (True):
             i += 1
diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 01cebda..45983ce 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -360,7 +360,7 @@ class SmoothTrajectory(object):
         else:
             raise ValueError('Unknown sampler: %s' % method)
 
-        find = numpy.arange(M, dtype=numpy.int)
+        find = numpy.arange(M, dtype=int)
 
         for cur_ind in reversed(range(len(pt) - 1)):
 
@@ -523,7 +523,7 @@ class SmoothTrajectory(object):
         ut = self.u
         yt = self.y
         tt = self.t
-        pind = numpy.arange(self.M, dtype=numpy.int)
+        pind = numpy.arange(self.M, dtype=int)
 
         straj = numpy.empty((T,), dtype=object)
         pt = self.traj[:T - 1]
-- 
2.43.0


From ba5761f4aa80d0d07aae87fe58cd2099b8886284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 02/53] fix: use range, xrange does not exist in Python 3

---
 pyparticleest/paramest/interfaces.py | 8 ++++----
 pyparticleest/paramest/paramest.py   | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index 3430427..0a26a18 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -61,7 +61,7 @@ class ParamEstInterface(ParamEstIntFullTraj):
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = straj.traj.shape[0]
-        for i in xrange(T - 1):
+        for i in range(T - 1):
             val = self.eval_logp_xnext(sest[i],
                                        sest[i + 1],
                                        ut[i], tt[i])
@@ -73,7 +73,7 @@ class ParamEstInterface(ParamEstIntFullTraj):
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = straj.traj.shape[0]
-        for i in xrange(T):
+        for i in range(T):
             if (yt[i] is not None):
                 val = self.eval_logp_y(sest[i], yt[i], tt[i])
                 logp_y += numpy.sum(val)
@@ -142,7 +142,7 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = len(straj)
-        for t in xrange(T):
+        for t in range(T):
             if (straj.y[t] is not None):
                 (val, grad) = self.eval_logp_y_val_grad(sest[t],
                                                         straj.y[t],
@@ -157,7 +157,7 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = len(straj)
-        for t in xrange(T - 1):
+        for t in range(T - 1):
             (val, grad) = self.eval_logp_xnext_val_grad(sest[t],
                                                         sest[t + 1],
                                                         straj.u[t],
diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index d4490ef..64bcae7 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -44,7 +44,7 @@ class ParamEstimation(Simulator):
 
         params_local = numpy.copy(param0)
         Q = -numpy.Inf
-        for i in xrange(max_iter):
+        for i in range(max_iter):
             Q_old = Q
             self.set_params(params_local)
             if (numpy.isscalar(num_part)):
@@ -132,7 +132,7 @@ class ParamEstimationSAEM(Simulator):
         alltrajs = None
         weights = None
 
-        for i in xrange(max_iter):
+        for i in range(max_iter):
             self.set_params(params_local)
 
             if (numpy.isscalar(num_part)):
@@ -331,7 +331,7 @@ class ParamEstimationPSAEM2(Simulator):
         weights = numpy.empty((max_iter * num_part,))
 
         datalen = 0
-        for i in xrange(max_iter):
+        for i in range(max_iter):
             self.set_params(params_local)
 
             self.simulate(num_part, 1, filter=filter, filter_options=filter_options,
@@ -345,7 +345,7 @@ class ParamEstimationPSAEM2(Simulator):
 
             newtrajs = numpy.empty((T, N, D))
 
-            for t in xrange(T):
+            for t in range(T):
                 newtrajs[t] = tmp[t].pa.part
 
             w = 1.0
-- 
2.43.0


From f21e0080b63013b6f670c0b055e8744bff1ed348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 03/53] fix: find_best_particles returns the particles with the
 largest weights

---
 pyparticleest/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 6a9fad4..9d52861 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -1140,4 +1140,4 @@ class ParticleApproximation(object):
         Returns:
          - (array-like) with len=n, representing the n most likely estimates """
         indices = numpy.argsort(self.w)
-        return indices[range(n)]
+        return indices[::-1][:n]
-- 
2.43.0


From 7b24aa5d897943c63c0eeda80c8dbaef028a6d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 04/53] fix: drawing a single particle works for weights of any
 common scale

---
 pyparticleest/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 9d52861..3ed1296 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -1128,7 +1128,7 @@ class ParticleApproximation(object):
 
         Returns:
          (array-like) sampled particle"""
-        return self.part[sample(numpy.exp(self.w), 1)[0]]
+        return self.part[sample(numpy.exp(self.w - numpy.max(self.w)), 1)[0]]
 
     def find_best_particles(self, n=1):
         """
-- 
2.43.0


From f29e9ece1ddc84972dd68d2e09fed5d69b5292f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 05/53] fix: CSIRAS keeps its weights from underflowing like
 the other filters

---
 pyparticleest/filter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 3ed1296..28e2548 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -389,6 +389,11 @@ class CSIRAS(SIR):
 
         pa.w = yw + nw - qw
 
+        # Keep the weights from going to -Inf
+        m = numpy.max(pa.w)
+        pa.w_offset += m
+        pa.w -= m
+
         pa.part[:] = pnext
         resampled = True
 
-- 
2.43.0


From 758e54f27fbdf3ce55811dc07d2167e6e2fb86ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 06/53] fix: CSIRAS starts from the initial state of the
 conditional trajectory

---
 pyparticleest/filter.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 28e2548..6d5e296 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -331,6 +331,22 @@ class CSIRAS(SIR):
         self.ctraj = cond_traj
         self.model = model
 
+    def create_initial_estimate(self, N):
+        """
+        Create initial particle estimate, the last particle is the initial
+        state of the conditional trajectory
+
+        Args:
+         - N (int): Number of particles
+
+        Returns:
+        (array-like): Sampled particles
+
+        """
+        part = self.model.create_initial_estimate(N)
+        part[-1] = self.ctraj[0].pa.part[0]
+        return part
+
     def forward(self, traj, yvec, uvec, tvec, cur_ind):
         """
         Forward the estimate stored in pa from t to t+1 using the motion model
-- 
2.43.0


From d4b101f31d6ed5fec3795692b17f2c185b70b450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 07/53] fix: auxiliary particle filter handles missing
 measurements

---
 pyparticleest/filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 6d5e296..fc518d5 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -697,6 +697,7 @@ class AuxiliaryParticleFilter(ParticleFilter):
         pa = ParticleApproximation(traj[-1].pa.part, traj[-1].pa.w)
 
         resampled = False
+        l1w = numpy.zeros(pa.num)
 
         if (yvec is not None and yvec[cur_ind + 1] is not None):
             # TODO Generalize to non-Markovian
-- 
2.43.0


From fa02241a4761405b10e0f8595b3dc05ab1b44dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 08/53] fix: FFPropY proposes from the measurement of the new
 step with preallocated data

---
 pyparticleest/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index fc518d5..9cde5b0 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -476,7 +476,8 @@ class FFPropY(object):
         else:
             ancestors = numpy.arange(pa.num, dtype=int)
 
-        partn = self.model.propose_from_y(len(pa.part), y=yvec[-1], t=tvec[-1])
+        partn = self.model.propose_from_y(len(pa.part), y=yvec[cur_ind + 1],
+                                          t=tvec[cur_ind + 1])
         find = numpy.arange(self.N, dtype=int)
 
         wn = self.model.logp_xnext_singlestep(part=traj[cur_ind].pa.part[ancestors],
-- 
2.43.0


From f3a7dbaab8de1374882321c88938910d80f3be69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 09/53] fix: reduced MHIPS works at steps with neither
 measurement nor future

---
 pyparticleest/smoother.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 45983ce..4111a8d 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -773,7 +773,7 @@ def mc_step(model, part, ptraj, pind_prop, pind_curr, future_trajs, find,
              (logp_next_prop - logp_next_curr) +
              (logp_q_curr - logp_q_prop))
 
-    test = numpy.log(numpy.random.uniform(size=len(ratio)))
+    test = numpy.log(numpy.random.uniform(size=len(curparty)))
     acc = test < ratio
     curparty[acc] = xpropy[acc]
     return (curparty, acc)
-- 
2.43.0


From eca29421eea91b8cae13eef88b96e26979a0dc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 10/53] fix: rejection sampling smoothers look up the future
 through find

---
 pyparticleest/smoother.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 4111a8d..2bc6bac 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -69,7 +69,7 @@ def bsi_rs(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, maxp
 
         ind = numpy.random.permutation(pf.sample(weights, len(todo)))
         pn = model.logp_xnext_full(pa.part[ind], ptraj, pind[ind],
-                                   future_trajs, todo,
+                                   future_trajs, find[todo],
                                    ut=ut, yt=yt, tt=tt, cur_ind=cur_ind)
         test = numpy.log(numpy.random.uniform(size=len(todo)))
         accept = test < pn - maxpdf
@@ -81,7 +81,7 @@ def bsi_rs(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, maxp
     # TODO, is there an efficient way to store those weights
     # already calculated to avoid double work, or will that
     # take more time than simply evaulating them all again?
-    res[todo] = bsi_full(model, pa, ptraj, pind, future_trajs, todo, ut=ut, yt=yt, tt=tt, cur_ind=cur_ind)
+    res[todo] = bsi_full(model, pa, ptraj, pind, future_trajs, find[todo], ut=ut, yt=yt, tt=tt, cur_ind=cur_ind)
     return res
 
 def bsi_rsas(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, maxpdf, x1, P1, sv, sw, ratio):
@@ -126,7 +126,7 @@ def bsi_rsas(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, ma
 
         ind = numpy.random.permutation(pf.sample(weights, len(todo)))
         pn = model.logp_xnext_full(pa.part[ind], ptraj, pind[ind],
-                                   future_trajs, todo,
+                                   future_trajs, find[todo],
                                    ut=ut, yt=yt, tt=tt, cur_ind=cur_ind)
         test = numpy.log(numpy.random.uniform(size=len(todo)))
         accept = test < pn - maxpdf
@@ -147,7 +147,7 @@ def bsi_rsas(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, ma
         if (pk < stop_criteria):
             break
 
-    res[todo] = bsi_full(model, pa, ptraj, pind, future_trajs, todo, ut=ut, yt=yt, tt=tt, cur_ind=cur_ind)
+    res[todo] = bsi_full(model, pa, ptraj, pind, future_trajs, find[todo], ut=ut, yt=yt, tt=tt, cur_ind=cur_ind)
     return res
 
 def bsi_mcmc(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, R, ancestors):
-- 
2.43.0


From 07278d6204af2e903c60db2f8abb3ddadc336771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:39 +0000
Subject: [PATCH 11/53] fix: time_update predicts from the stored estimate

---
 pyparticleest/utils/ckalman.pyx | 2 +-
 pyparticleest/utils/kalman.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/utils/ckalman.pyx b/pyparticleest/utils/ckalman.pyx
index d29558e..232ea83 100644
--- a/pyparticleest/utils/ckalman.pyx
+++ b/pyparticleest/utils/ckalman.pyx
@@ -99,7 +99,7 @@ class KalmanFilter(object):
         """
         
         # Calculate next state
-        (self.z, self.P) = self.predict_full(A=self.A, f_k=self.f_k, Q=self.Q)  
+        (self.z, self.P) = self.predict_full(self.z, self.P, A=self.A, f_k=self.f_k, Q=self.Q)  
         
     def predict(self, z, P):
         """ 
diff --git a/pyparticleest/utils/kalman.py b/pyparticleest/utils/kalman.py
index 129eb63..c081095 100644
--- a/pyparticleest/utils/kalman.py
+++ b/pyparticleest/utils/kalman.py
@@ -99,7 +99,7 @@ class KalmanFilter(object):
         """
 
         # Calculate next state
-        (self.z, self.P) = self.predict_full(A=self.A, f_k=self.f_k, Q=self.Q)
+        (self.z, self.P) = self.predict_full(self.z, self.P, A=self.A, f_k=self.f_k, Q=self.Q)
 
     def predict(self, z, P):
         """
-- 
2.43.0


From a05f18ee05087d77ea175e9988d32fab2a6b3455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 12/53] fix: scalar nonlinear Gaussian models use the variance
 in their densities, not its root

---
 pyparticleest/models/nlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/nlg.py b/pyparticleest/models/nlg.py
index 407a0aa..9efb939 100644
--- a/pyparticleest/models/nlg.py
+++ b/pyparticleest/models/nlg.py
@@ -200,7 +200,7 @@ class NonlinearGaussian(interfaces.ParticleFiltering, interfaces.FFBSiRS):
         diff = yrep - g
         if (R is None):
             if (self.Rcholtri.shape[0] == 1):
-                lpy = kalman.lognormpdf_scalar(diff, self.Rcholtri)
+                lpy = kalman.lognormpdf_scalar(diff, self.Rcholtri ** 2)
             else:
                 lpy = kalman.lognormpdf_cho_vec(diff, self.Rchol)
         else:
@@ -287,7 +287,7 @@ class NonlinearGaussian(interfaces.ParticleFiltering, interfaces.FFBSiRS):
         Q = self.calc_Q(particles, u, t)
         if (Q is None):
             if (self.Qcholtri.shape[0] == 1):
-                lpx = kalman.lognormpdf_scalar(diff, self.Qcholtri)
+                lpx = kalman.lognormpdf_scalar(diff, self.Qcholtri ** 2)
             else:
                 lpx = kalman.lognormpdf_cho_vec(diff, self.Qchol)
         else:
-- 
2.43.0


From 0fbae542e75320b7baec9f83bff059aed9ad8f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 13/53] fix: initial states of nonlinear Gaussian models have
 the declared covariance

---
 pyparticleest/models/nlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/nlg.py b/pyparticleest/models/nlg.py
index 9efb939..d93ad97 100644
--- a/pyparticleest/models/nlg.py
+++ b/pyparticleest/models/nlg.py
@@ -412,9 +412,9 @@ class NonlinearGaussianInitialGaussian(NonlinearGaussian):
          of all particles """
         particles = numpy.repeat(self.x0, N, 1).T
         if (numpy.any(self.Px0)):
-            Pchol = scipy.linalg.cho_factor(self.Px0)[0]
+            Pchol = numpy.triu(scipy.linalg.cho_factor(self.Px0)[0])
             noise = numpy.random.normal(size=(self.lxi, N))
-            particles += (Pchol.dot(noise)).T
+            particles += (Pchol.T.dot(noise)).T
         return particles
 
     def eval_logp_x0(self, particles, t):
-- 
2.43.0


From 3509308e5e59c1eec91a6980d73bab4541411c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 14/53] fix: LTV.sample_smooth uses the step, particle and
 future state it is asked about

---
 pyparticleest/models/ltv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index 402b133..b1baae2 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -277,11 +277,11 @@ class LTV(FFBSi, ParticleFiltering):
         res = numpy.empty((M, lz + 2 * lz ** 2))
         for j in range(M):
             if (future_trajs is not None):
-                zn = future_trajs[0].pa.part[j, :lz].reshape((lz, 1))
-                Pn = future_trajs[0].pa.part[j, lz:lzP].reshape((lz, lz))
-                (A, f, Q) = self.get_pred_dynamics(u=ut[0], t=tt[0])
+                zn = future_trajs[0].pa.part[find[j], :lz].reshape((lz, 1))
+                Pn = future_trajs[0].pa.part[find[j], lz:lzP].reshape((lz, lz))
+                (A, f, Q) = self.get_pred_dynamics(u=ut[cur_ind], t=tt[cur_ind])
                 self.kf.set_dynamics(A=A, Q=Q, f_k=f)
-                (zs, Ps, Ms) = self.kf.smooth(zl[0], Pl[0], zn, Pn, self.kf.A,
+                (zs, Ps, Ms) = self.kf.smooth(zl[j], Pl[j], zn, Pn, self.kf.A,
                                               self.kf.f_k, self.kf.Q)
             else:
                 zs = zl[j]
-- 
2.43.0


From 77ceac84fe4618b1a96f3f5429d4dca33f359fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 15/53] fix: LTV gradient of the measurement term

---
 pyparticleest/models/ltv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index b1baae2..665c586 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -494,7 +494,7 @@ class LTV(FFBSi, ParticleFiltering):
             for i in range(N):
             # Calculate l3 according to (19b)
                 # Calculate l3 according to (19b)
-                (l3, l3_grad) = self.calc_l3_grad(y, zl[i], Pl[i])
+                (l3, l3_grad) = self.calc_l3_grad(y, zl[i], Pl[i], C_grad, h_grad)
                 tmp = scipy.linalg.cho_solve(Rcho, l3)
                 logpy += -0.5 * (ld + numpy.trace(tmp))
 
@@ -623,12 +623,12 @@ class LTV(FFBSi, ParticleFiltering):
         l3_grad = numpy.zeros((lparam, len(y), len(y)))
         if (h_grad is not None):
             for j in range(lparam):
-                tmp = -h_grad[j].dot(meas_diff)
+                tmp = -h_grad[j].dot(meas_diff.T)
                 l3_grad[j] += tmp + tmp.T
         if (C_grad is not None):
             for j in range(lparam):
-                tmp = -C_grad[j].dot(z).dot(meas_diff)
+                tmp = -C_grad[j].dot(z).dot(meas_diff.T)
                 l3_grad[j] += tmp + tmp.T
-                tmp = C_grad[j].dot(P).dot(self.kf.C)
+                tmp = C_grad[j].dot(P).dot(self.kf.C.T)
                 l3_grad[j] += tmp + tmp.T
         return (l3, l3_grad)
-- 
2.43.0


From 081a49a88182decddde3f28287a136de3cf67d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 16/53] fix: LTV gradient of the initial term when only the
 mean depends on the parameters

---
 pyparticleest/models/ltv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index 665c586..922a320 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -345,6 +345,8 @@ class LTV(FFBSi, ParticleFiltering):
             lpz0 = self.eval_logp_x0(particles, t)
         else:
             lpz0 = 0.0
+            if (P0_grad is None):
+                P0_grad = numpy.zeros((lparam, self.kf.lz, self.kf.lz))
             P0cho = scipy.linalg.cho_factor(self.P0)
             ld = numpy.sum(numpy.log(numpy.diagonal(P0cho[0]))) * 2
             for i in range(N):
-- 
2.43.0


From 3af19b202a5f41af2b59b5f9073917f105ce05e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 17/53] fix: LTV stores the parameters it is given

---
 pyparticleest/models/ltv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index 922a320..8fe09c2 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -41,6 +41,8 @@ class LTV(FFBSi, ParticleFiltering):
                  R=None, f=None, h=None, params=None, **kwargs):
         self.z0 = numpy.copy(z0).reshape((-1, 1))
         self.P0 = numpy.copy(P0)
+        if (params is not None):
+            self.params = numpy.copy(params)
         if (f is None):
             f = numpy.zeros_like(self.z0)
         self.kf = kalman.KalmanSmoother(lz=len(self.z0),
-- 
2.43.0


From 42cc37c16dcfcc98713151ad4cdb473d26eb9e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 18/53] fix: mixed models could not predict more than one
 nonlinear state

---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 8138cb7..a62d3e0 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -180,7 +180,7 @@ class MixedNLGaussianSampled(RBPSBase):
         # This is probably not so nice performance-wise, but will
         # work initially to profile where the bottlenecks are.
         for i in range(N):
-            xi_next[i] = Axi[i].dot(zl[i]) + fxi[i]
+            xi_next[i] = (Axi[i].dot(zl[i]) + fxi[i]).ravel()
         return xi_next
 
     def meas_xi_next(self, particles, xi_next, u, t):
-- 
2.43.0


From 7f2559fc51660a656aec0aac1857dc99617ead98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 19/53] fix: linear noise covariance was not conditioned on the
 nonlinear noise

---
 pyparticleest/models/mlnlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index a62d3e0..763244a 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -264,8 +264,8 @@ class MixedNLGaussianSampled(RBPSBase):
             # TODO linalg.solve instead?
             tmp = Qxiz[i].T.dot(scipy.linalg.inv(Qxi[i]))
             Acond.append(Az[i] - tmp.dot(Axi[i]))
-            fcond.append(fz[i] + tmp.dot(xi_next[i] - fxi[i]))
-            Qcond.append(Qz[i])
+            fcond.append(fz[i] + tmp.dot(xi_next[i].reshape((-1, 1)) - fxi[i]))
+            Qcond.append(Qz[i] - tmp.dot(Qxiz[i]))
 
         return (Acond, fcond, Qcond)
 
-- 
2.43.0


From cc80915a4b9210dcc0d50619ca1f164bc7840014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 20/53] fix: mixed models with known initial linear state
 (Pz0=None) could not be created

---
 pyparticleest/models/mlnlg.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 763244a..79cbe02 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1044,12 +1044,11 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
             self.Pxi0 = numpy.zeros((len(self.xi0), len(self.xi0)))
         else:
             self.Pxi0 = numpy.copy((Pxi0))
+        self.z0 = numpy.copy(z0).reshape((-1, 1))
         if (Pz0 is None):
             self.Pz0 = numpy.zeros((len(self.z0), len(self.z0)))
         else:
             self.Pz0 = numpy.copy((Pz0))
-        self.z0 = numpy.copy(z0).reshape((-1, 1))
-        self.Pz0 = numpy.copy(Pz0)
         super(MixedNLGaussianSampledInitialGaussian, self).__init__(lxi=len(self.xi0),
                                                              lz=len(self.z0),
                                                              **kwargs)
-- 
2.43.0


From d7384d25dd5279b34185e1080e8e638e0c9700e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 21/53] fix: mixed models ignored their params argument

---
 pyparticleest/models/mlnlg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 79cbe02..5dcdaaa 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -63,6 +63,9 @@ class MixedNLGaussianSampled(RBPSBase):
         else:
             self.Qxiz = None
 
+        if (params is not None):
+            self.params = numpy.copy(params).reshape((-1, 1))
+
         self.lxi = lxi
 
         return super(MixedNLGaussianSampled, self).__init__(lz=lz,
-- 
2.43.0


From 5b87d9862e2f841030edaf651d02624e2e9d45e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 22/53] fix: initial density of mixed models with known initial
 nonlinear state (Pxi0=None) raised LinAlgError

---
 pyparticleest/models/mlnlg.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 5dcdaaa..5b2618c 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1130,6 +1130,14 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
         """
         N = len(xil)
         res = numpy.empty((N,))
+        # Assumes Pxi0 is either full rank or zero
+        if ((self.Pxi0 == 0.0).all()):
+            for i in range(N):
+                if (numpy.array_equal(numpy.ravel(xil[i]), self.xi0.ravel())):
+                    res[i] = 0.0
+                else:
+                    res[i] = -numpy.inf
+            return res
         Pchol = scipy.linalg.cho_factor(self.Pxi0, check_finite=False)
         for i in range(N):
             res[i] = kalman.lognormpdf_cho(xil[i] - self.xi0, Pchol)
@@ -1157,6 +1165,9 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
         N = len(xil)
         (xi0_grad, Pxi0_grad) = self.get_xi_intitial_grad(N)
         lpxi0_grad = numpy.zeros(self.params.shape)
+        if ((self.Pxi0 == 0.0).all()):
+            # The initial state is known, nothing to differentiate
+            return lpxi0_grad
         Pxi0cho = scipy.linalg.cho_factor(self.Pxi0, check_finite=False)
         for i in range(N):
             tmp = xil[i] - self.xi0
-- 
2.43.0


From 85b793ab966b6575f53decbddf9c47cc1affcca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:48 +0000
Subject: [PATCH 23/53] fix: printing the statistics of an instrumented model
 raised AttributeError

---
 pyparticleest/utils/intrument.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/pyparticleest/utils/intrument.py b/pyparticleest/utils/intrument.py
index 6afe3f3..80d7342 100644
--- a/pyparticleest/utils/intrument.py
+++ b/pyparticleest/utils/intrument.py
@@ -63,20 +63,21 @@ class Instrumenter(object):
 
     def print_statistics(self):
         print("Modelclass : %s" % type(self.model))
-        print("cnt_sample: %d" % self.cnt_sample)
-        print("cnt_update: %d" % self.cnt_update)
-        print("cnt_measure: %d" % self.cnt_measure)
-        print("cnt_pdfxn: %d" % self.cnt_pdfxn + self.cnt_pdfxn_full)
-        print("cnt_pdfxnmax: %d" % self.cnt_pdfxnmax)
-        print("cnt_propsmooth: %d" % self.cnt_propsmooth)
-        print("cnt_pdfsmooth: %d" % self.cnt_pdfsmooth)
+        print("cnt_sample: %d" % self.oc.cnt_sample)
+        print("cnt_update: %d" % self.oc.cnt_update)
+        print("cnt_measure: %d" % self.oc.cnt_measure)
+        print("cnt_pdfxn: %d" % (self.oc.cnt_pdfxn + self.oc.cnt_pdfxn_full))
+        print("cnt_pdfxnmax: %d" % self.oc.cnt_pdfxnmax)
+        print("cnt_propsmooth: %d" % self.oc.cnt_propsmooth)
+        print("cnt_pdfsmooth: %d" % self.oc.cnt_pdfsmooth)
 
 
     def print_total_ops(self):
-        print("total ops: %d" % (self.cnt_sample + self.cnt_update +
-                                 self.cnt_measure + self.cnt_pdfxn +
-                                 self.cnt_pdfxnmax + self.cnt_propsmooth +
-                                 self.cnt_pdfsmooth))
+        print("total ops: %d" % (self.oc.cnt_sample + self.oc.cnt_update +
+                                 self.oc.cnt_measure + self.oc.cnt_pdfxn +
+                                 self.oc.cnt_pdfxn_full +
+                                 self.oc.cnt_pdfxnmax + self.oc.cnt_propsmooth +
+                                 self.oc.cnt_pdfsmooth))
 
     def create_initial_estimate(self, N):
         """ Sample N particle from initial distribution """
-- 
2.43.0


From c737b127b55bfe0d44d5aafb9b5fda890634983f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:48 +0000
Subject: [PATCH 24/53] fix: instrumented models lacked set_params and the
 methods used by the SIR and CPFYAS filters

---
 pyparticleest/utils/intrument.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyparticleest/utils/intrument.py b/pyparticleest/utils/intrument.py
index 80d7342..76e2206 100644
--- a/pyparticleest/utils/intrument.py
+++ b/pyparticleest/utils/intrument.py
@@ -61,6 +61,12 @@ class Instrumenter(object):
         self.model = model
         self.oc = OpCount()
 
+    def __getattr__(self, name):
+        # Methods which aren't counted are those of the model
+        if (name == 'model'):
+            raise AttributeError(name)
+        return getattr(self.model, name)
+
     def print_statistics(self):
         print("Modelclass : %s" % type(self.model))
         print("cnt_sample: %d" % self.oc.cnt_sample)
@@ -98,6 +104,11 @@ class Instrumenter(object):
         self.oc.cnt_measure += len(particles)
         return self.model.measure_full(particles, traj, uvec, yvec, tvec, ancestors)
 
+    def measure(self, particles, y, t):
+        """ Return the log-pdf value of the measurement """
+        self.oc.cnt_measure += len(particles)
+        return self.model.measure(particles, y, t)
+
     def copy_ind(self, particles, new_ind=None):
         return self.model.copy_ind(particles, new_ind)
 
-- 
2.43.0


From 01e8bde9b10ef012e0ea70fca460d9ddd9950fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 25/53] fix: smoothing failed for instrumented models without
 post_smoothing or pre_mhips_pass

---
 pyparticleest/utils/intrument.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pyparticleest/utils/intrument.py b/pyparticleest/utils/intrument.py
index 76e2206..c3f333b 100644
--- a/pyparticleest/utils/intrument.py
+++ b/pyparticleest/utils/intrument.py
@@ -62,7 +62,8 @@ class Instrumenter(object):
         self.oc = OpCount()
 
     def __getattr__(self, name):
-        # Methods which aren't counted are those of the model
+        # Methods which aren't counted are those of the model, some of them
+        # (pre_mhips_pass, post_smoothing) are only used if the model has them
         if (name == 'model'):
             raise AttributeError(name)
         return getattr(self.model, name)
@@ -159,12 +160,6 @@ class Instrumenter(object):
         self.oc.cnt_eval1st += len(particles)
         return self.model.eval_1st_stage_weights(particles, u, y, t)
 
-    def pre_mhips_pass(self, st):
-        return self.model.pre_mhips_pass(st)
-
-    def post_smoothing(self, st):
-        return self.model.post_smoothing(st)
-
     def eval_logp_x0(self, particles, t):
         self.oc.cnt_eval_logp_x0 += len(particles)
         return self.model.eval_logp_x0(particles, t)
-- 
2.43.0


From 5998eb7881b1c110d67a7a5bda4b41ab37df0ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 26/53] fix: objectives with gradients did not sum values given
 per particle

---
 pyparticleest/paramest/interfaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index 0a26a18..a8b02c0 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -147,7 +147,7 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
                 (val, grad) = self.eval_logp_y_val_grad(sest[t],
                                                         straj.y[t],
                                                         straj.t[t])
-                logp_y += val
+                logp_y += numpy.sum(val)
                 logp_y_grad += grad
         return (logp_y / M, logp_y_grad / M)
 
@@ -162,7 +162,7 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
                                                         sest[t + 1],
                                                         straj.u[t],
                                                         straj.t[t])
-            logp_xnext += val
+            logp_xnext += numpy.sum(val)
             logp_xnext_grad += grad
 
         return (logp_xnext / M, logp_xnext_grad / M)
-- 
2.43.0


From 29b2318d363b7715f3f3ef8f709d0538ee6c0c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 27/53] fix: the gradient of the initial density was averaged
 over the parameters

---
 pyparticleest/paramest/gradienttest.py | 4 ++--
 pyparticleest/paramest/interfaces.py   | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/paramest/gradienttest.py b/pyparticleest/paramest/gradienttest.py
index ba96f4d..7eb0b26 100644
--- a/pyparticleest/paramest/gradienttest.py
+++ b/pyparticleest/paramest/gradienttest.py
@@ -51,7 +51,7 @@ class GradientTest(ParamEstimation):
                                                              self.straj.t)
             tmp = self.model.eval_logp_x0(self.straj.traj[0].pa.part,
                                           self.straj.t[0])
-            logpx0[k] = numpy.mean(tmp)
+            logpx0[k] = numpy.sum(tmp) / len(self.straj.traj[0].pa.part)
 
             if (analytic_grad):
                 (_, grad_logp_y) = self.model.eval_logp_y_val_grad_fulltraj(self.straj,
@@ -62,7 +62,7 @@ class GradientTest(ParamEstimation):
                                                                                      self.straj.t)
                 (tmp1, tmp2) = self.model.eval_logp_x0_val_grad(self.straj.traj[0].pa.part,
                                                                 self.straj.t[0])
-                (_, grad_logp_x0) = (numpy.mean(tmp1), numpy.mean(tmp2))
+                (_, grad_logp_x0) = (numpy.sum(tmp1), tmp2 / len(self.straj.traj[0].pa.part))
 
                 grad_logpy[k] = grad_logp_y
                 grad_logpxn[k] = grad_logp_xnext
diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index a8b02c0..279695b 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -250,7 +250,7 @@ class ParamEstBaseNumeric(ParamEstIntFullTraj):
                                                        straj.t)
             tmp = self.eval_logp_x0(straj.traj[0].pa.part,
                                     straj.t[0])
-            log_px0 = numpy.mean(tmp)
+            log_px0 = numpy.sum(tmp) / len(straj.traj[0].pa.part)
 
             val = -1.0 * (log_py + log_px0 + log_pxnext)
             return val
@@ -282,7 +282,8 @@ class ParamEstBaseNumericGrad(ParamEstInterface_GradientSearchFullTraj):
 
             (tmp1, tmp2) = self.eval_logp_x0_val_grad(straj.traj[0].pa.part,
                                                       straj.t[0])
-            (logp_x0, grad_logp_x0) = (numpy.mean(tmp1), numpy.mean(tmp2))
+            M = len(straj.traj[0].pa.part)
+            (logp_x0, grad_logp_x0) = (numpy.sum(tmp1) / M, tmp2 / M)
             val = -1.0 * (logp_y + logp_x0 + logp_xnext)
             grad = -1.0 * (grad_logp_y + grad_logp_xnext + grad_logp_x0)
             return (val, grad)
-- 
2.43.0


From 3d57ea1700474d4188aa23ae053e2bca7bf6276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 28/53] fix: maximisation failed for models storing their
 parameters as a column

---
 pyparticleest/paramest/interfaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index 279695b..7d649c8 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -255,7 +255,7 @@ class ParamEstBaseNumeric(ParamEstIntFullTraj):
             val = -1.0 * (log_py + log_px0 + log_pxnext)
             return val
 
-        res = scipy.optimize.minimize(fun=fval, x0=self.params, method='l-bfgs-b', jac=False,
+        res = scipy.optimize.minimize(fun=fval, x0=numpy.ravel(self.params), method='l-bfgs-b', jac=False,
                                       options=dict({'maxiter':10, 'maxfun':100}),
                                       bounds=self.param_bounds,)
         return res.x
@@ -288,7 +288,7 @@ class ParamEstBaseNumericGrad(ParamEstInterface_GradientSearchFullTraj):
             grad = -1.0 * (grad_logp_y + grad_logp_xnext + grad_logp_x0)
             return (val, grad)
 
-        res = scipy.optimize.minimize(fun=fval_grad, x0=self.params, method='l-bfgs-b', jac=True,
+        res = scipy.optimize.minimize(fun=fval_grad, x0=numpy.ravel(self.params), method='l-bfgs-b', jac=True,
                                       options=dict({'maxiter':10, 'maxfun':100}),
                                       bounds=self.param_bounds,)
 
-- 
2.43.0


From 723e756e8fd02fe988863dd8aaaf410430c09dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 29/53] fix: SAEM concatenated arrays of trajectory steps and
 raised IndexError

---
 pyparticleest/paramest/paramest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 64bcae7..c212f3c 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -155,7 +155,7 @@ class ParamEstimationSAEM(Simulator):
                           meas_first=meas_first)
 
             w = numpy.ones((numt,)) / numt
-            newtrajs = numpy.copy(self.straj.traj)
+            newtrajs = self.get_smoothed_estimates()
             alpha = alpha_gen(i)
             if (weights is None):
                 weights = w
-- 
2.43.0


From 428636e949e123d530bf9473f4ca7b6ca1db19f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 30/53] fix: Rao-Blackwellized PSAEM used uninitialised memory
 as trajectories

---
 pyparticleest/paramest/paramest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index c212f3c..10c5790 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -245,6 +245,8 @@ class ParamEstimationPSAEM(Simulator):
                 T = len(tmp)
                 D = tmp[0].pa.part.shape[1]
                 newtrajs = numpy.empty((T, N, D))
+                for t in range(T):
+                    newtrajs[t] = tmp[t].pa.part
 
             else:
                 newtrajs = self.get_smoothed_estimates()
-- 
2.43.0


From a69fb357dd17a079ae7688ef254ae5b7af8206e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 31/53] fix: PSAEM ignored max_iter when given a callback

---
 pyparticleest/paramest/paramest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 10c5790..4c6f498 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -288,6 +288,8 @@ class ParamEstimationPSAEM(Simulator):
                 rval = callback(params=params_local, Q=-numpy.Inf, cur_iter=i)
                 if (rval):
                     break
+            if (i >= max_iter):
+                break
         return (params_local, -numpy.Inf)
 
 class ParamEstimationPSAEM2(Simulator):
-- 
2.43.0


From 56707d6362aae2d819cf3c4a3096417e381f96f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:27 +0000
Subject: [PATCH 32/53] fix: Hierarchical sample_smooth used the first
 particle's state for every trajectory

---
 pyparticleest/models/hierarchial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/hierarchial.py b/pyparticleest/models/hierarchial.py
index 589436b..c00e9e4 100644
--- a/pyparticleest/models/hierarchial.py
+++ b/pyparticleest/models/hierarchial.py
@@ -160,7 +160,7 @@ class HierarchicalBase(RBPSBase):
         res = numpy.zeros((M, self.lxi + self.kf.lz + 2 * self.kf.lz ** 2))
         for j in range(M):
             partj = numpy.copy(part[j:j + 1])
-            (xil, zl, Pl) = self.get_states(part,)
+            (xil, zl, Pl) = self.get_states(partj)
             if (future_trajs is not None):
                 (A, f, Q, _, _, _) = self.get_lin_pred_dynamics_int(partj,
                                                                     ut[cur_ind],
-- 
2.43.0


From 79218dd334038318f3b9663e2084e5e3835b875e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:27 +0000
Subject: [PATCH 33/53] fix: Hierarchical logp_xnext_max missed the factor -1/2
 on the log determinant

---
 pyparticleest/models/hierarchial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/hierarchial.py b/pyparticleest/models/hierarchial.py
index c00e9e4..3b731bb 100644
--- a/pyparticleest/models/hierarchial.py
+++ b/pyparticleest/models/hierarchial.py
@@ -259,7 +259,7 @@ class HierarchicalRSBase(HierarchicalBase, FFBSiRS):
         for i in range(N):
             # Predict z_{t+1}
             Pn = Az[i].dot(Pl[i]).dot(Az[i].T) + Qz[i]
-            lpz[i] = -0.5 * nx * math.log(2 * math.pi) + numpy.linalg.slogdet(Pn)[1]
+            lpz[i] = -0.5 * (nx * math.log(2 * math.pi) + numpy.linalg.slogdet(Pn)[1])
         lpmax = numpy.max(lpxi + lpz)
         return lpmax
 
-- 
2.43.0


From 4a133120f19f424a995c91b78a5179571bac6044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:27 +0000
Subject: [PATCH 34/53] fix: Hierarchical measure raised for models without
 constant C or hz

---
 pyparticleest/models/hierarchial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyparticleest/models/hierarchial.py b/pyparticleest/models/hierarchial.py
index 3b731bb..833d569 100644
--- a/pyparticleest/models/hierarchial.py
+++ b/pyparticleest/models/hierarchial.py
@@ -51,11 +51,11 @@ class HierarchicalBase(RBPSBase):
         N = len(particles)
         (y, Cz, hz, Rz) = self.get_lin_meas_dynamics(particles, y, t)
         if (Cz is None):
-            Cz = numpy.repeat(self.kf.C[numpy.newaxis, :, :], N, axis=0)
+            Cz = N * (self.kf.C,)
         if (hz is None):
-            hz = numpy.repeat(self.kf.h_k[numpy.newaxis, :, :], N, axis=0)
+            hz = N * (self.kf.h_k,)
         if (Rz is None):
-            Rz = numpy.repeat(self.kf.R[numpy.newaxis, :, :], N, axis=0)
+            Rz = N * (self.kf.R,)
 
         lyz = numpy.empty_like(lyxi)
         for i in range(len(zl)):
-- 
2.43.0


From 63cbc79ea93dd1673d0b4111efa6f4b57297659f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:57 +0000
Subject: [PATCH 35/53] fix: mixed model gradients have one element per
 parameter

---
 pyparticleest/models/mlnlg.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 5b2618c..e4df6f6 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -720,7 +720,7 @@ class MixedNLGaussianSampled(RBPSBase):
         Args:
          - xil (list): Initial xi states
         """
-        return numpy.zeros(self.params.shape)
+        return numpy.zeros(len(self.params))
 
     def eval_logp_x0(self, particles, t):
         """
@@ -757,7 +757,7 @@ class MixedNLGaussianSampled(RBPSBase):
            of all particles, with first dimension = N (number of particles)
          - t (float): time stamp
         """
-        lpz0_grad = numpy.zeros(self.params.shape)
+        lpz0_grad = numpy.zeros(len(self.params))
 
         # Calculate l1 according to (19a)
         N = len(particles)
@@ -876,7 +876,7 @@ class MixedNLGaussianSampled(RBPSBase):
         """
         N = len(particles)
         lpxn = 0.0
-        lpxn_grad = numpy.zeros(self.params.shape)
+        lpxn_grad = numpy.zeros(len(self.params))
 
         (A_grad, f_grad, Q_grad) = self.get_pred_dynamics_grad(particles=particles, u=u, t=t)
         if (A_grad is None and f_grad is None and Q_grad is None):
@@ -1001,7 +1001,7 @@ class MixedNLGaussianSampled(RBPSBase):
 
         N = len(particles)
         logpy = 0.0
-        lpy_grad = numpy.zeros(self.params.shape)
+        lpy_grad = numpy.zeros(len(self.params))
         (y, Cz, hz, Rz, _, _, Rz_identical) = self.get_meas_dynamics_int(particles, y, t)
         (C_grad, h_grad, R_grad) = self.get_meas_dynamics_grad(particles=particles, y=y, t=t)
         if (C_grad is None and h_grad is None and R_grad is None):
@@ -1164,7 +1164,7 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
         """
         N = len(xil)
         (xi0_grad, Pxi0_grad) = self.get_xi_intitial_grad(N)
-        lpxi0_grad = numpy.zeros(self.params.shape)
+        lpxi0_grad = numpy.zeros(len(self.params))
         if ((self.Pxi0 == 0.0).all()):
             # The initial state is known, nothing to differentiate
             return lpxi0_grad
-- 
2.43.0


From 62975fb8b83e01bc674f17d06578d032bb9f7327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:57 +0000
Subject: [PATCH 36/53] fix: mixed model initial value and gradient are sums
 over the particles

---
 pyparticleest/models/mlnlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index e4df6f6..2912422 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -782,8 +782,8 @@ class MixedNLGaussianSampled(RBPSBase):
                 dl1 = -tmp - tmp.T
                 lpz0_grad[j] -= 0.5 * mlnlg_compute.compute_logprod_derivative(P0cho, P0_grad[i][j], l1, dl1)
 
-        return ((lpxi0 + lpz0) / N,
-                (lpxi0_grad + lpz0_grad) / N)
+        return (numpy.sum(lpxi0) + lpz0,
+                lpxi0_grad + lpz0_grad)
 
 
     def calc_l2(self, xin, zn, Pn, zl, Pl, A, f, M):
-- 
2.43.0


From ba22b190410becf6ea789db7b34aaadcf08303fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:57 +0000
Subject: [PATCH 37/53] fix: mixed model default initial gradients had a
 spurious particle dimension

---
 pyparticleest/models/mlnlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 2912422..e39d138 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1116,8 +1116,8 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
          P is a list of element-wise gradients for the covariance matrices
         """
         N = len(xi0)
-        return (N * (numpy.zeros((N, len(self.params), self.kf.lz, 1)),),
-                N * (numpy.zeros((N, len(self.params), self.kf.lz, self.kf.lz)),))
+        return (N * (numpy.zeros((len(self.params), self.kf.lz, 1)),),
+                N * (numpy.zeros((len(self.params), self.kf.lz, self.kf.lz)),))
 
     def eval_logp_xi0(self, xil):
         """
-- 
2.43.0


From 4cc58d6f8026a8068b638886471b483e4a9e9d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:57 +0000
Subject: [PATCH 38/53] fix: mixed model measurement gradient ignored C_grad

---
 pyparticleest/models/mlnlg.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index e39d138..8a5e986 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -939,7 +939,6 @@ class MixedNLGaussianSampled(RBPSBase):
             l3[i] = meas_diff.dot(meas_diff.T) + Cl[i].dot(Pl[i]).dot(Cl[i].T)
 
             if (C_grad is not None):
-                C_grad = N * (numpy.zeros((len(self.params), len(y), self.kf.lz)),)
                 for j in range(len(self.params)):
                     tmp2 = C_grad[i][j].dot(Pl[i]).dot(Cl[i].T)
                     tmp = C_grad[i][j].dot(zl[i]).dot(meas_diff.T)
-- 
2.43.0


From e7bdb1b9fec154211d05160dc5a25d8fe24aafbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:57 +0000
Subject: [PATCH 39/53] fix: mixed model measurement gradient failed for
 particle dependent R

---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 8a5e986..803304d 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1025,7 +1025,7 @@ class MixedNLGaussianSampled(RBPSBase):
                                                                       l3[i], l3_grad[i][j])
             else:
                 for i in range(N):
-                    Rzcho = scipy.linalg.cho_factor(Rzcho, check_finite=False)
+                    Rzcho = scipy.linalg.cho_factor(Rz[i], check_finite=False)
                     # (_tmp, ld) = numpy.linalg.slogdet(Rz[i])
                     ld = numpy.sum(numpy.log(numpy.diagonal(Rzcho[0]))) * 2
                     tmp = scipy.linalg.cho_solve(Rzcho, l3[i])
-- 
2.43.0


From 0cc3394744d8b0c937da925ca374a37039c603ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:20 +0000
Subject: [PATCH 40/53] fix: mixed model transition gradient failed for
 particle dependent A with the compiled helpers

---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 803304d..076f612 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -815,7 +815,7 @@ class MixedNLGaussianSampled(RBPSBase):
                               perr, f_grad, tmp1)
         if (A_grad is not None):
             mlnlg_compute.compute_l2_grad_A(N, len(self.params), self.lxi + self.kf.lz, diff_l2,
-                              perr, self.lxi, Pn, zl, Pl, M, A, A_grad, tmp1, tmp2)
+                              perr, self.lxi, Pn, zl, Pl, M, numpy.asarray(A), A_grad, tmp1, tmp2)
         return (l2, diff_l2)
 
     def eval_logp_xnext(self, particles, x_next, u, t):
-- 
2.43.0


From daa63fba01e93f9fc73ce70e5e343df5b4254359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:20 +0000
Subject: [PATCH 41/53] fix: mixed model measurement objective was wrong for
 measurements given as a flat vector

---
 pyparticleest/models/mlnlg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 076f612..b9e0256 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -964,6 +964,7 @@ class MixedNLGaussianSampled(RBPSBase):
         """
         N = len(particles)
         (y, Cz, hz, Rz, _, _, Rz_identical) = self.get_meas_dynamics_int(particles, y, t)
+        y = numpy.asarray(y).reshape((-1, 1))
         (_xil, zl, Pl) = self.get_states(particles)
         logpy = 0.0
         l3 = self.calc_l3(y, zl, Pl, Cz, hz)
@@ -1006,6 +1007,7 @@ class MixedNLGaussianSampled(RBPSBase):
         if (C_grad is None and h_grad is None and R_grad is None):
             logpy = self.eval_logp_y(particles, y, t)
         else:
+            y = numpy.asarray(y).reshape((-1, 1))
             if (R_grad is None):
                 R_grad = N * (numpy.zeros((len(self.params), len(y), len(y))),)
 
-- 
2.43.0


From 7bb66427b91bb183c0229248ded80aecdb39565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:33 +0000
Subject: [PATCH 42/53] fix: marginalised mixed model added instead of
 subtracting part of the quadratic term

---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index b9e0256..201d254 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1230,7 +1230,7 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
             Tau_t += fz[j].T.dot(OHnl[j]).dot(fz[j])
             Tau_t += -2.0 * LHnl[j].T.dot(fz[j])
             tmp = F.T.dot(m)
-            Tau_t += tmp.T.dot(numpy.linalg.solve(Mt, tmp))
+            Tau_t -= tmp.T.dot(numpy.linalg.solve(Mt, tmp))
 
             tmp = F.dot(numpy.linalg.solve(Mt, F.T))
 
-- 
2.43.0


From d88ed6cf6448b1322b75a1cf025fa265bc1395a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:33 +0000
Subject: [PATCH 43/53] fix: marginalised mixed model was wrong for more than
 one nonlinear state

---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 201d254..d71646c 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1225,7 +1225,7 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
             m = LHnl[j] - OHnl[j].dot(fz[j])
             Mt = F.T.dot(OHnl[j]).dot(F) + numpy.eye(lz)
             Tau_t = 0.0
-            xidiff = xinl[j] - fxi[j]
+            xidiff = xinl[j].reshape((-1, 1)) - fxi[j]
             Tau_t += xidiff.T.dot(numpy.linalg.solve(Qxi[j], xidiff))
             Tau_t += fz[j].T.dot(OHnl[j]).dot(fz[j])
             Tau_t += -2.0 * LHnl[j].T.dot(fz[j])
-- 
2.43.0


From 4234180688aac1e43632341bb2e3c21918240192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:33 +0000
Subject: [PATCH 44/53] fix: marginalised mixed model ignored the noise cross
 covariance

---
 pyparticleest/models/mlnlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index d71646c..8aa4571 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1215,8 +1215,8 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
         Omega = numpy.zeros_like(OHnl)
         Lambda = numpy.zeros_like(LHnl)
 
-        (Az, fz, Qz, _, _, _) = self.get_lin_pred_dynamics_int(particles=particles,
-                                                               u=u, t=t)
+        (Az, fz, Qz) = self.calc_cond_dynamics(particles=particles, xi_next=xinl,
+                                               u=u, t=t)
         (Axi, fxi, Qxi, _, _, _) = self.get_nonlin_pred_dynamics_int(particles=particles,
                                                                      u=u, t=t)
 
-- 
2.43.0


From 39329e4ba5949830d1315270e19285844d4c4de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:33 +0000
Subject: [PATCH 45/53] fix: marginalised mixed model used measurement
 information when there is no measurement

---
 pyparticleest/models/mlnlg.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 8aa4571..eb81040 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1344,8 +1344,6 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
         LHind = lxi + OHlen
         res = numpy.zeros((M, lxi + OHlen + LHlen))
 
-        (_, Cz, hz, Rz, _, _, _) = self.get_meas_dynamics_int(particles=part, y=yt[cur_ind], t=tt[cur_ind])
-
         res[:, :lxi] = part[:, :lxi]
 
         if (future_trajs is not None):
@@ -1353,13 +1351,18 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
                 res[j, OHind:OHind + OHlen] = Omega[j].ravel()
                 res[j, LHind:] = Lambda[j].ravel()
 
-        for j in range(M):
-            if (Cz is not None and Cz[j] is not None):
-                tmp = numpy.linalg.solve(Rz[j], Cz[j])
-                res[j, OHind:OHind + OHlen] += (Cz[j].T.dot(tmp)).ravel()
-            if (yt is not None and yt[cur_ind] is not None):
-                res[j, LHind:] += (tmp.T.dot(numpy.asarray(yt[cur_ind]).reshape((-1, 1)) -
-                                             hz[j])).ravel()
+        if (yt is not None and yt[cur_ind] is not None):
+            (y, Cz, hz, Rz, _, _, _) = self.get_meas_dynamics_int(particles=part,
+                                                                  y=yt[cur_ind],
+                                                                  t=tt[cur_ind])
+            y = numpy.asarray(y).reshape((-1, 1))
+            for j in range(M):
+                # Without C the measurement has no information on z
+                if (Cz[j] is not None):
+                    tmp = numpy.linalg.solve(Rz[j], Cz[j])
+                    diff = y if (hz[j] is None) else y - hz[j]
+                    res[j, OHind:OHind + OHlen] += (Cz[j].T.dot(tmp)).ravel()
+                    res[j, LHind:] += (tmp.T.dot(diff)).ravel()
 
         return res
 
-- 
2.43.0


From c2fdc856ae5a73be4a096aac611e3152209fc059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:21 +0000
Subject: [PATCH 46/53] fix: separate measurements see the history before the
 measured step

ParticleTrajectory.measure handed the model a history that includes the measured step itself, so ancestors (which index the previous step) were looked up in the wrong step.
---
 pyparticleest/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 9cde5b0..96f55ee 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -1005,7 +1005,8 @@ class ParticleTrajectory(object):
             self.yvec[self.ind] = y
             self.tvec[self.ind] = self.ind
 
-            self.pf.measure(traj=self.traj, ancestors=self.traj[-1].ancestors,
+            # History up to, but not including, the measured time step
+            self.pf.measure(traj=self.traj[:-1], ancestors=self.traj[-1].ancestors,
                             pa=self.traj[-1].pa, uvec=self.uvec,
                             yvec=self.yvec, tvec=self.tvec,
                             cur_ind=self.ind, inplace=True)
-- 
2.43.0


From 4d73ad1005aef33e6916dad01aa693147cc4420f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:26 +0000
Subject: [PATCH 47/53] fix: LTV models keep their constant matrices when a
 step supplies its own

---
 pyparticleest/models/ltv.py | 95 ++++++++++++++++++++++---------------
 1 file changed, 57 insertions(+), 38 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index 8fe09c2..b0e5709 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -135,6 +135,20 @@ class LTV(FFBSi, ParticleFiltering):
         """
         return (None, None, None)
 
+    def get_pred_dynamics_int(self, u, t):
+        """
+        Helper method, replaces the matrices not supplied by get_pred_dynamics
+        with the ones stored in the class (which are left unchanged)
+        """
+        (A, f, Q) = self.get_pred_dynamics(u=u, t=t)
+        if (A is None):
+            A = self.kf.A
+        if (f is None):
+            f = self.kf.f_k
+        if (Q is None):
+            Q = self.kf.Q
+        return (A, f, Q)
+
     def update(self, particles, u, t, noise):
         """ Propagate estimate forward in time
 
@@ -152,11 +166,10 @@ class LTV(FFBSi, ParticleFiltering):
         # Update linear estimate with data from measurement of next non-linear
         # state
         (zl, Pl) = self.get_states(particles)
-        (A, f, Q) = self.get_pred_dynamics(u=u, t=t)
-        self.kf.set_dynamics(A=A, Q=Q, f_k=f)
+        (A, f, Q) = self.get_pred_dynamics_int(u=u, t=t)
         for i in range(len(zl)):
             # Predict z_{t+1}
-            (zl[i], Pl[i]) = self.kf.predict(zl[i], Pl[i])
+            (zl[i], Pl[i]) = self.kf.predict_full(zl[i], Pl[i], A, f, Q)
 
         # Predict next states conditioned on eta_next
         self.set_states(particles, zl, Pl)
@@ -183,6 +196,20 @@ class LTV(FFBSi, ParticleFiltering):
         """
         return (y, None, None, None)
 
+    def get_meas_dynamics_int(self, y, t):
+        """
+        Helper method, replaces the matrices not supplied by get_meas_dynamics
+        with the ones stored in the class (which are left unchanged)
+        """
+        (y, C, h, R) = self.get_meas_dynamics(y=y, t=t)
+        if (C is None):
+            C = self.kf.C
+        if (h is None):
+            h = self.kf.h_k
+        if (R is None):
+            R = self.kf.R
+        return (y, C, h, R)
+
     def measure(self, particles, y, t):
         """
         Return the log-pdf value of the measurement and update the statistics
@@ -201,12 +228,11 @@ class LTV(FFBSi, ParticleFiltering):
 
 
         (zl, Pl) = self.get_states(particles)
-        (y, C, h, R) = self.get_meas_dynamics(y=y, t=t)
-        self.kf.set_dynamics(C=C, R=R, h_k=h)
+        (y, C, h, R) = self.get_meas_dynamics_int(y=y, t=t)
         lyz = numpy.empty((len(particles)))
         for i in range(len(zl)):
             # Predict z_{t+1}
-            lyz[i] = self.kf.measure(y, zl[i], Pl[i])
+            lyz[i] = self.kf.measure_full(y, zl[i], Pl[i], C, h, R)
 
         self.set_states(particles, zl, Pl)
         return lyz
@@ -281,10 +307,8 @@ class LTV(FFBSi, ParticleFiltering):
             if (future_trajs is not None):
                 zn = future_trajs[0].pa.part[find[j], :lz].reshape((lz, 1))
                 Pn = future_trajs[0].pa.part[find[j], lz:lzP].reshape((lz, lz))
-                (A, f, Q) = self.get_pred_dynamics(u=ut[cur_ind], t=tt[cur_ind])
-                self.kf.set_dynamics(A=A, Q=Q, f_k=f)
-                (zs, Ps, Ms) = self.kf.smooth(zl[j], Pl[j], zn, Pn, self.kf.A,
-                                              self.kf.f_k, self.kf.Q)
+                (A, f, Q) = self.get_pred_dynamics_int(u=ut[cur_ind], t=tt[cur_ind])
+                (zs, Ps, Ms) = self.kf.smooth(zl[j], Pl[j], zn, Pn, A, f, Q)
             else:
                 zs = zl[j]
                 Ps = Pl[j]
@@ -377,8 +401,7 @@ class LTV(FFBSi, ParticleFiltering):
         N = len(particles)
         (zl, Pl) = self.get_states(particles)
         (zn, Pn) = self.get_states(x_next)
-        (A, f, Q) = self.get_pred_dynamics(u=u, t=t)
-        self.kf.set_dynamics(A=A, Q=Q, f_k=f)
+        (A, f, Q) = self.get_pred_dynamics_int(u=u, t=t)
         self.t = t
         lpxn = numpy.empty(N)
 
@@ -386,9 +409,9 @@ class LTV(FFBSi, ParticleFiltering):
             lz = len(self.z0)
             lzP = lz + lz * lz
             Mz = particles[k][lzP:].reshape((lz, lz))
-            (l2, _A, _M_ext, _predict_err) = self.calc_l2(zn[k], Pn[k], zl[k], Pl[k], self.kf.A, self.kf.f_k, Mz)
-            (_tmp, ld) = numpy.linalg.slogdet(self.kf.Q)
-            tmp = numpy.linalg.solve(self.kf.Q, l2)
+            (l2, _A, _M_ext, _predict_err) = self.calc_l2(zn[k], Pn[k], zl[k], Pl[k], A, f, Mz)
+            (_tmp, ld) = numpy.linalg.slogdet(Q)
+            tmp = numpy.linalg.solve(Q, l2)
             lpxn[k] = -0.5 * (ld + numpy.trace(tmp))
 
         return lpxn
@@ -410,15 +433,14 @@ class LTV(FFBSi, ParticleFiltering):
         lparam = len(self.params)
         (zl, Pl) = self.get_states(particles)
         (zn, Pn) = self.get_states(x_next)
-        (A, f, Q) = self.get_pred_dynamics(u=u, t=t)
+        (A, f, Q) = self.get_pred_dynamics_int(u=u, t=t)
         (A_grad, f_grad, Q_grad) = self.get_pred_dynamics_grad(u=u, t=t)
         lpxn_grad = numpy.zeros(lparam)
         if (A_grad is None and f_grad is None and Q_grad is None):
             lpxn = self.eval_logp_xnext(particles, x_next, u, t)
         else:
-            self.kf.set_dynamics(A=A, Q=Q, f_k=f)
             lpxn = 0.0
-            Qcho = scipy.linalg.cho_factor(self.kf.Q, check_finite=False)
+            Qcho = scipy.linalg.cho_factor(Q, check_finite=False)
             ld = numpy.sum(numpy.log(numpy.diagonal(Qcho[0]))) * 2
 
             if (Q_grad is None):
@@ -428,7 +450,7 @@ class LTV(FFBSi, ParticleFiltering):
                 lz = len(self.z0)
                 lzP = lz + lz * lz
                 Mz = particles[k][lzP:].reshape((lz, lz))
-                (l2, l2_grad) = self.calc_l2_grad(zn[k], Pn[k], zl[k], Pl[k], self.kf.A, self.kf.f_k, Mz, A_grad, f_grad)
+                (l2, l2_grad) = self.calc_l2_grad(zn[k], Pn[k], zl[k], Pl[k], A, f, Mz, A_grad, f_grad)
                 tmp = scipy.linalg.cho_solve(Qcho, l2)
                 lpxn += -0.5 * (ld + numpy.trace(tmp))
 
@@ -452,15 +474,14 @@ class LTV(FFBSi, ParticleFiltering):
         """
         N = len(particles)
         self.t = t
-        (y, C, h, R) = self.get_meas_dynamics(y=y, t=t)
-        self.kf.set_dynamics(C=C, R=R, h_k=h)
+        (y, C, h, R) = self.get_meas_dynamics_int(y=y, t=t)
         (zl, Pl) = self.get_states(particles)
         logpy = numpy.empty(N)
         for i in range(N):
             # Calculate l3 according to (19b)
-            l3 = self.calc_l3(y, zl[i], Pl[i])
-            (_tmp, ld) = numpy.linalg.slogdet(self.kf.R)
-            tmp = numpy.linalg.solve(self.kf.R, l3)
+            l3 = self.calc_l3(y, zl[i], Pl[i], C, h)
+            (_tmp, ld) = numpy.linalg.slogdet(R)
+            tmp = numpy.linalg.solve(R, l3)
             logpy[i] = -0.5 * (ld + numpy.trace(tmp))
 
         return logpy
@@ -479,15 +500,13 @@ class LTV(FFBSi, ParticleFiltering):
         """
         N = len(particles)
         lparam = len(self.params)
-        (y, C, h, R) = self.get_meas_dynamics(y=y, t=t)
+        (y, C, h, R) = self.get_meas_dynamics_int(y=y, t=t)
         (C_grad, h_grad, R_grad) = self.get_meas_dynamics_grad(y=y, t=t)
         logpy_grad = numpy.zeros(lparam)
         if (C_grad is None and h_grad is None and R_grad is None):
             logpy = self.eval_logp_y(particles, y, t)
         else:
-
-            self.kf.set_dynamics(C=C, R=R, h_k=h)
-            Rcho = scipy.linalg.cho_factor(self.kf.R, check_finite=False)
+            Rcho = scipy.linalg.cho_factor(R, check_finite=False)
             ld = numpy.sum(numpy.log(numpy.diagonal(Rcho[0]))) * 2
             (zl, Pl) = self.get_states(particles)
             logpy = 0.0
@@ -498,7 +517,7 @@ class LTV(FFBSi, ParticleFiltering):
             for i in range(N):
             # Calculate l3 according to (19b)
                 # Calculate l3 according to (19b)
-                (l3, l3_grad) = self.calc_l3_grad(y, zl[i], Pl[i], C_grad, h_grad)
+                (l3, l3_grad) = self.calc_l3_grad(y, zl[i], Pl[i], C, h, C_grad, h_grad)
                 tmp = scipy.linalg.cho_solve(Rcho, l3)
                 logpy += -0.5 * (ld + numpy.trace(tmp))
 
@@ -605,25 +624,25 @@ class LTV(FFBSi, ParticleFiltering):
                 l2_grad[j] += tmp + tmp.T
         return (l2, l2_grad)
 
-    def calc_l3(self, y, z, P):
+    def calc_l3(self, y, z, P, C, h):
         """ internal helper function """
         meas_diff = self.kf.measurement_diff(y.reshape((-1, 1)),
                                              z,
-                                             C=self.kf.C,
-                                             h_k=self.kf.h_k)
+                                             C=C,
+                                             h_k=h)
         l3 = meas_diff.dot(meas_diff.T)
-        l3 += self.kf.C.dot(P).dot(self.kf.C.T)
+        l3 += C.dot(P).dot(C.T)
         return l3
 
-    def calc_l3_grad(self, y, z, P, C_grad, h_grad):
+    def calc_l3_grad(self, y, z, P, C, h, C_grad, h_grad):
         """ internal helper function """
         lparam = len(self.params)
         meas_diff = self.kf.measurement_diff(y.reshape((-1, 1)),
                                              z,
-                                             C=self.kf.C,
-                                             h_k=self.kf.h_k)
+                                             C=C,
+                                             h_k=h)
         l3 = meas_diff.dot(meas_diff.T)
-        l3 += self.kf.C.dot(P).dot(self.kf.C.T)
+        l3 += C.dot(P).dot(C.T)
         l3_grad = numpy.zeros((lparam, len(y), len(y)))
         if (h_grad is not None):
             for j in range(lparam):
@@ -633,6 +652,6 @@ class LTV(FFBSi, ParticleFiltering):
             for j in range(lparam):
                 tmp = -C_grad[j].dot(z).dot(meas_diff.T)
                 l3_grad[j] += tmp + tmp.T
-                tmp = C_grad[j].dot(P).dot(self.kf.C.T)
+                tmp = C_grad[j].dot(P).dot(C.T)
                 l3_grad[j] += tmp + tmp.T
         return (l3, l3_grad)
-- 
2.43.0


From 591bebdbdafc5188eea51c037d8b1584085ab81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:14 +0000
Subject: [PATCH 48/53] fix: MHBP deals its proposed ancestors out at random
 among the trajectories

---
 pyparticleest/smoother.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 2bc6bac..1432dd7 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -473,7 +473,7 @@ class SmoothTrajectory(object):
 
                 if (t > 0):
                     # Propose new ancestors
-                    panc = pf.sample(tmp, M)
+                    panc = numpy.random.permutation(pf.sample(tmp, M))
 
 
                 (pnew, acc) = mc_step(model=self.model,
-- 
2.43.0


From 1f2252d21c637b2ea732788a76ec96604bfe0729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:23 +0000
Subject: [PATCH 49/53] fix: nonlinear Gaussian models accept integer initial
 states

---
 pyparticleest/models/nlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/nlg.py b/pyparticleest/models/nlg.py
index d93ad97..4b67a1d 100644
--- a/pyparticleest/models/nlg.py
+++ b/pyparticleest/models/nlg.py
@@ -385,7 +385,7 @@ class NonlinearGaussianInitialGaussian(NonlinearGaussian):
     def __init__(self, x0=None, Px0=None, lxi=None, **kwargs):
 
         if (x0 is not None):
-            self.x0 = numpy.copy(x0).reshape((-1, 1))
+            self.x0 = numpy.array(x0, dtype=float).reshape((-1, 1))
         elif (lxi is not None):
             self.x0 = numpy.zeros((lxi, 1))
         elif (Px0 is not None):
-- 
2.43.0


From 996460720a0935b30182c93d61749d914f2d56f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:23 +0000
Subject: [PATCH 50/53] fix: integer measurements in the objectives of linear
 and mixed models

---
 pyparticleest/utils/ckalman.pyx | 2 +-
 pyparticleest/utils/kalman.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/utils/ckalman.pyx b/pyparticleest/utils/ckalman.pyx
index 232ea83..7b34e6c 100644
--- a/pyparticleest/utils/ckalman.pyx
+++ b/pyparticleest/utils/ckalman.pyx
@@ -129,7 +129,7 @@ class KalmanFilter(object):
         """
         Calculate different between measurement and predicted measurement
         """
-        yhat = np.zeros_like(y)
+        yhat = np.zeros(np.shape(y))
         if (C is not None):
             yhat += C.dot(z)
         if (h_k is not None):
diff --git a/pyparticleest/utils/kalman.py b/pyparticleest/utils/kalman.py
index c081095..7e613f2 100644
--- a/pyparticleest/utils/kalman.py
+++ b/pyparticleest/utils/kalman.py
@@ -129,7 +129,7 @@ class KalmanFilter(object):
         """
         Calculate different between measurement and predicted measurement
         """
-        yhat = np.zeros_like(y)
+        yhat = np.zeros(np.shape(y))
         if (C is not None):
             yhat += C.dot(z)
         if (h_k is not None):
-- 
2.43.0


From 05f806ed7ece2017cdf4225e77fb3853bee0f7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:23 +0000
Subject: [PATCH 51/53] fix: gradient test truncated its candidates when the
 parameters are integers

---
 pyparticleest/paramest/gradienttest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/paramest/gradienttest.py b/pyparticleest/paramest/gradienttest.py
index 7eb0b26..3b49618 100644
--- a/pyparticleest/paramest/gradienttest.py
+++ b/pyparticleest/paramest/gradienttest.py
@@ -40,7 +40,7 @@ class GradientTest(ParamEstimation):
             grad_logpxn = numpy.zeros((param_steps, len(self.params)))
             grad_logpx0 = numpy.zeros((param_steps, len(self.params)))
         for k in range(param_steps):
-            tmp = numpy.copy(self.params)
+            tmp = numpy.array(self.params, dtype=float)
             tmp[param_id] = param_vals[k]
             self.set_params(tmp)
             logpy[k] = self.model.eval_logp_y_fulltraj(self.straj,
-- 
2.43.0


From d36a4e72360ef661ce299acb61aff709170a4078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:31 +0000
Subject: [PATCH 52/53] fix: hierarchical models accept integer log densities
 of the nonlinear part

---
 pyparticleest/models/hierarchial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/hierarchial.py b/pyparticleest/models/hierarchial.py
index 833d569..9f17ba8 100644
--- a/pyparticleest/models/hierarchial.py
+++ b/pyparticleest/models/hierarchial.py
@@ -57,7 +57,7 @@ class HierarchicalBase(RBPSBase):
         if (Rz is None):
             Rz = N * (self.kf.R,)
 
-        lyz = numpy.empty_like(lyxi)
+        lyz = numpy.empty_like(lyxi, dtype=float)
         for i in range(len(zl)):
             lyz[i] = self.kf.measure_full(numpy.asarray(y).reshape((-1, 1)),
                                           zl[i], Pl[i], Cz[i], hz[i], Rz[i])
@@ -253,7 +253,7 @@ class HierarchicalRSBase(HierarchicalBase, FFBSiRS):
         N = len(particles)
         lpxi = self.logp_xnext_xi_max(particles, u, t)
         (Az, _fz, Qz, _, _, _) = self.get_lin_pred_dynamics_int(particles, u, t)
-        lpz = numpy.empty_like(lpxi)
+        lpz = numpy.empty_like(lpxi, dtype=float)
         (_xil, _zl, Pl) = self.get_states(particles)
         nx = len(Qz[0])
         for i in range(N):
-- 
2.43.0


From afbd0da2a492c4d9597f12b8f271d8b4d22613c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:54 +0000
Subject: [PATCH 53/53] fix: MHIPS and MHBP smooth trajectories of a single
 time step

---
 pyparticleest/smoother.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 1432dd7..8ae7139 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -467,6 +467,7 @@ class SmoothTrajectory(object):
                 tmp = tmp / numpy.sum(tmp)
                 ptraj = pt[:t]
             else:
+                anc = panc = find
                 ptraj = None
 
             for _ in range(R):
@@ -526,12 +527,14 @@ class SmoothTrajectory(object):
         pind = numpy.arange(self.M, dtype=int)
 
         straj = numpy.empty((T,), dtype=object)
-        pt = self.traj[:T - 1]
+        # A single time-step has neither ancestors nor successors
+        pt = self.traj[:T - 1] if T > 1 else None
+        panc = pind if T > 1 else None
         (part, _acc) = mc_step(model=self.model,
                               part=self.traj[-1].pa.part,
                               ptraj=pt,
-                              pind_prop=pind,
-                              pind_curr=pind,
+                              pind_prop=panc,
+                              pind_curr=panc,
                               future_trajs=None, find=pind,
                               ut=ut, yt=yt, tt=tt, cur_ind=T - 1,
                               reduced=reduced)
@@ -546,6 +549,8 @@ class SmoothTrajectory(object):
                                                   tt=tt,
                                                   cur_ind=T - 1))
         straj[T - 1] = TrajectoryStep(ParticleApproximation(tmp), pind)
+        if T == 1:
+            return straj
 
 
         for i in reversed(range(1, (T - 1))):
@@ -672,7 +677,7 @@ def mc_step(model, part, ptraj, pind_prop, pind_curr, future_trajs, find,
                               tvec=tt[:cur_ind],
                               ancestors=pind_prop, noise=noise)
         else:
-            xprop = model.create_initial_estimate(len(future_trajs[0].pa.part))
+            xprop = model.create_initial_estimate(len(part))
 
         # Drawing from p(x_{t+1}|x_t), so these will be identical
         logp_prev_prop = 0.0
-- 
2.43.0

