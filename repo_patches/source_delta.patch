From fa604dfc476ef60d82bb05c530e3920d2a6af3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:04 +0000
Subject: [PATCH 01/58] fix: torch.cholesky was removed from torch, use
 torch.linalg.cholesky

---
 beer/dists/normal.py        | 6 +++---
 beer/dists/normalwishart.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/beer/dists/normal.py b/beer/dists/normal.py
index e1279ef..351ce59 100644
--- a/beer/dists/normal.py
+++ b/beer/dists/normal.py
@@ -83,7 +83,7 @@ class NormalFullCovariance(ExponentialFamily):
         prec = nparams[:, dim: dim * (dim + 1)].reshape(-1, dim, dim)
 
         # Log determinant of all the covariance matrix.
-        L = torch.cholesky(cov, upper=False)
+        L = torch.linalg.cholesky(cov)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1)
 
         # Quadratic term of the log-normalizer: -.5 * mu^T S mu
@@ -153,7 +153,7 @@ class NormalFullCovariance(ExponentialFamily):
             mean = mean.view(1, -1)
             cov = cov.view(1, dim, dim)
 
-        L = torch.cholesky(cov, upper=False)
+        L = torch.linalg.cholesky(cov)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1)
         prec = cov.inverse()
         Sm = torch.matmul(prec, mean[:, :, None]).view(-1, dim)
@@ -168,7 +168,7 @@ class NormalFullCovariance(ExponentialFamily):
         if len(size) <= 1:
             mean = mean.view(1, -1)
             cov = cov.view(1, dim, dim)
-        L = torch.cholesky(cov, upper=False)
+        L = torch.linalg.cholesky(cov)
         noise = torch.randn(mean.shape[0], nsamples, mean.shape[1],
                             dtype=mean.dtype, device=mean.device)
         retval = mean[:, None, :] + torch.matmul(noise, L.permute(0, 2, 1))
diff --git a/beer/dists/normalwishart.py b/beer/dists/normalwishart.py
index e2edbb6..e233f73 100644
--- a/beer/dists/normalwishart.py
+++ b/beer/dists/normalwishart.py
@@ -192,7 +192,7 @@ class NormalWishart(ExponentialFamily):
             scale_matrix, dof = scale_matrix.view(1, dim, dim), dof.view(1, 1)
 
         idxs = torch.arange(1, dim + 1, dtype=mean.dtype, device=mean.device)
-        L = torch.cholesky(scale_matrix, upper=False)
+        L = torch.linalg.cholesky(scale_matrix)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1,
                                                                  keepdim=True)
         mean_quad = mean[:, :, None] * mean[:, None, :]
@@ -226,7 +226,7 @@ class NormalWishart(ExponentialFamily):
             scale_matrix, dof = scale_matrix.view(1, dim, dim), dof.view(1, 1)
 
         idxs = torch.arange(1, dim + 1, dtype=mean.dtype, device=mean.device)
-        L = torch.cholesky(scale_matrix, upper=False)
+        L = torch.linalg.cholesky(scale_matrix)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1,
                                                                  keepdim=True)
         return (.5 * dof * logdet + .5 * dof * dim * math.log(2) \
-- 
2.43.0


From 96d7ba57dcb8f869983e00f01326f7ae5925df1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:04 +0000
Subject: [PATCH 02/58] fix: standard parameters of the diagonal Normal from
 its natural parameters

---
 beer/dists/normaldiag.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beer/dists/normaldiag.py b/beer/dists/normaldiag.py
index 8c55cde..7e15337 100644
--- a/beer/dists/normaldiag.py
+++ b/beer/dists/normaldiag.py
@@ -57,10 +57,10 @@ class NormalDiagonalCovarianceStdParams(torch.nn.Module):
 
     @classmethod
     def from_natural_parameters(cls, natural_params):
-        dim = (len(natural_params)) // 2
-        np1 = natural_params[:dim]
-        np2 = natural_params[dim:2 * dim]
-        diag_cov = 1. / (-2 * np2)
+        dim = natural_params.shape[-1] // 2
+        np1 = natural_params[..., :dim]
+        np2 = natural_params[..., dim:]
+        diag_cov = 1. / np2
         mean = diag_cov * np1
         return cls(mean, diag_cov)
 
-- 
2.43.0


From dff8d487ded1ef204f98dfee048a9da879704f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:04 +0000
Subject: [PATCH 03/58] fix: expected statistics of a batch of diagonal Normals

---
 beer/dists/normaldiag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/normaldiag.py b/beer/dists/normaldiag.py
index 7e15337..3f59caf 100644
--- a/beer/dists/normaldiag.py
+++ b/beer/dists/normaldiag.py
@@ -134,7 +134,7 @@ class NormalDiagonalCovariance(ExponentialFamily):
         return torch.cat([
             self.params.mean,
             -.5 * (self.params.diag_cov + self.params.mean ** 2)
-        ])
+        ], dim=-1)
 
     def expected_value(self):
         return self.params.mean
-- 
2.43.0


From b0bb832b8903696d90a2515a6d4006258659da78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:04 +0000
Subject: [PATCH 04/58] fix: log-likelihood of several diagonal Normals

---
 beer/dists/normaldiag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/normaldiag.py b/beer/dists/normaldiag.py
index 3f59caf..393e338 100644
--- a/beer/dists/normaldiag.py
+++ b/beer/dists/normaldiag.py
@@ -101,7 +101,7 @@ class NormalDiagonalCovariance(ExponentialFamily):
         if pdfwise:
             return torch.sum(nparams * stats, dim=-1) - lnorm \
                    + log_basemeasure
-        retval = nparams @ stats.t() - lnorm + log_basemeasure
+        retval = nparams @ stats.t() - lnorm[:, None] + log_basemeasure
         if len(size) <= 1:
             return retval.reshape(-1)
         return retval
-- 
2.43.0


From 39930373389dcf5ced08a92f19f47d5caf5fa3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:04 +0000
Subject: [PATCH 05/58] fix: standard parameters of the full covariance Normal
 from its natural parameters

---
 beer/dists/normal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/dists/normal.py b/beer/dists/normal.py
index 351ce59..8bfa09c 100644
--- a/beer/dists/normal.py
+++ b/beer/dists/normal.py
@@ -41,8 +41,8 @@ class NormalFullCovarianceStdParams(torch.nn.Module):
 
         np1 = natural_params[:, :dim]
         np2 = natural_params[:, dim: dim * (dim + 1)]
-        cov = np2.inverse()
-        mean = cov * np1
+        cov = np2.reshape(-1, dim, dim).inverse()
+        mean = torch.matmul(cov, np1[:, :, None])
 
         if len(npsize) == 1:
             return cls(mean.view(-1), cov.view(dim, dim))
-- 
2.43.0


From 55d5c350fc42f4010542aa999ea6a15ead0a641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:04 +0000
Subject: [PATCH 06/58] fix: log-likelihood of a single full covariance Normal

---
 beer/dists/normal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beer/dists/normal.py b/beer/dists/normal.py
index 8bfa09c..9470b02 100644
--- a/beer/dists/normal.py
+++ b/beer/dists/normal.py
@@ -76,6 +76,7 @@ class NormalFullCovariance(ExponentialFamily):
         dim = self.dim
         if len(size) <= 1:
             mean = mean.view(1, -1)
+            cov = cov.view(1, dim, dim)
             nparams = nparams.view(1, -1)
 
         # Get the precision matrix from the natural parameters not
-- 
2.43.0


From 3c73676d980a92d28a1aa55e689e14dd56190eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:04 +0000
Subject: [PATCH 07/58] fix: length of a Gamma distribution

---
 beer/dists/gamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/gamma.py b/beer/dists/gamma.py
index 1227181..733a141 100644
--- a/beer/dists/gamma.py
+++ b/beer/dists/gamma.py
@@ -86,7 +86,7 @@ class Gamma(ExponentialFamily):
     _std_params_cls = GammaStdParams
 
     def __len__(self):
-        paramshape = self.params.mean.shape
+        paramshape = self.params.shape.shape
         return 1 if len(paramshape) <= 1 else paramshape[0]
 
     @property
-- 
2.43.0


From bb07d8ce832ccf996256082db1043118db81004f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:04 +0000
Subject: [PATCH 08/58] fix: entropy of an exponential family member

---
 beer/dists/basedist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/basedist.py b/beer/dists/basedist.py
index 147e003..a8bf933 100644
--- a/beer/dists/basedist.py
+++ b/beer/dists/basedist.py
@@ -268,5 +268,5 @@ def entropy(pdf):
     nparams = pdf.natural_parameters()
     exp_stats = pdf.expected_sufficient_statistics()
     lnorm = pdf.log_norm()
-    return torch.sum(exp_stats * nparams1, dim=-1) - lnorm
+    return lnorm - torch.sum(exp_stats * nparams, dim=-1)
 
-- 
2.43.0


From b7583b2e02ef67437b4216a4edf51261c51648eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:51 +0000
Subject: [PATCH 09/58] fix: weight of the routes through non-emitting states

---
 beer/graph.py | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/beer/graph.py b/beer/graph.py
index f5457f2..a7e3161 100644
--- a/beer/graph.py
+++ b/beer/graph.py
@@ -154,33 +154,32 @@ class Graph:
         del self._states[old_state_id]
 
     def find_next_pdf_ids(self, start_state, init_weight=1.0):
-        to_explore = [(arc, init_weight) for arc in self.arcs(start_state)]
-        visited = set([start_state])
+        to_explore = [(arc, init_weight, {start_state})
+                      for arc in self.arcs(start_state)]
         while to_explore:
-            arc, weight = to_explore.pop()
+            arc, weight, visited = to_explore.pop()
+            weight = weight * arc.weight
             pdf_id = self._states[arc.end].pdf_id
             if pdf_id is not None:
-                yield arc.end, weight * arc.weight
-            else:
-                if arc.end not in visited:
-                    to_explore += [(arc, arc.weight * weight)
-                                    for arc in self.arcs(arc.end)]
-                    visited.add(arc.end)
+                yield arc.end, weight
+            elif arc.end not in visited:
+                # A state may be reached by several routes: only forbid
+                # to visit it twice along the same route.
+                to_explore += [(next_arc, weight, visited | {arc.end})
+                               for next_arc in self.arcs(arc.end)]
 
     def find_previous_pdf_ids(self, start_state, init_weight=1.0):
-        to_explore = [(arc, init_weight)
+        to_explore = [(arc, init_weight, {start_state})
                       for arc in self.arcs(start_state, incoming=True)]
-        visited = set([start_state])
         while to_explore:
-            arc, weight = to_explore.pop()
+            arc, weight, visited = to_explore.pop()
+            weight = weight * arc.weight
             pdf_id = self._states[arc.start].pdf_id
             if pdf_id is not None:
-                yield arc.start, weight * arc.weight
-            else:
-                if arc.start not in visited:
-                    to_explore += [(arc, arc.weight * weight)
-                                    for arc in self.arcs(arc.start, incoming=True)]
-                    visited.add(arc.start)
+                yield arc.start, weight
+            elif arc.start not in visited:
+                to_explore += [(prev_arc, weight, visited | {arc.start})
+                               for prev_arc in self.arcs(arc.start, incoming=True)]
 
     def compile(self):
         'Compile the graph.'
-- 
2.43.0


From 40f5b4a861329d61c8270f868eaf995d0a4330cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:05 +0000
Subject: [PATCH 10/58] fix: replacing a state that has an arc to itself

---
 beer/graph.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/beer/graph.py b/beer/graph.py
index a7e3161..34e3af2 100644
--- a/beer/graph.py
+++ b/beer/graph.py
@@ -137,12 +137,16 @@ class Graph:
         # Connect the unit graph to the main graph.
         to_delete = []
         new_arcs = []
-        for arc in self.arcs(old_state_id):
-            to_delete.append(arc)
-            new_arcs.append((new_states[graph.end_state], arc.end, arc.weight))
-        for arc in self.arcs(old_state_id, incoming=True):
+        for arc in self.arcs():
+            if old_state_id not in (arc.start, arc.end):
+                continue
             to_delete.append(arc)
-            new_arcs.append((arc.start, new_states[graph.start_state], arc.weight))
+            start, end = arc.start, arc.end
+            if start == old_state_id:
+                start = new_states[graph.end_state]
+            if end == old_state_id:
+                end = new_states[graph.start_state]
+            new_arcs.append((start, end, arc.weight))
 
         # Add the new arcs.
         for start, end, weight in new_arcs:
-- 
2.43.0


From 540c2ab24ba53e5b9a590893314902b0ace74351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:36 +0000
Subject: [PATCH 11/58] fix: parameters of isotropic Normals from real and pdf
 vectors

---
 beer/dists/isonormalgamma.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beer/dists/isonormalgamma.py b/beer/dists/isonormalgamma.py
index 82e5388..8a34759 100644
--- a/beer/dists/isonormalgamma.py
+++ b/beer/dists/isonormalgamma.py
@@ -33,7 +33,7 @@ class IsotropicNormalLikelihood(ConjugateLikelihood):
     def pdfvectors_from_rvectors(rvecs):
         dim = rvecs.shape[-1] - 1
         mean = rvecs[:, :dim]
-        log_precision = rvecs[:, -2:-1]
+        log_precision = rvecs[:, dim:]
         precision = torch.exp(log_precision)
         return torch.cat([
             precision * mean,
@@ -47,11 +47,11 @@ class IsotropicNormalLikelihood(ConjugateLikelihood):
         size = pdfvec.shape
         if len(size) == 1:
             pdfvec = pdfvec.view(1, -1)
-        precision = pdfvec[:, -3]
+        precision = pdfvec[:, -3:-2]
         mean = pdfvec[:, :-3] / precision
         if len(size) == 1:
             return mean.view(-1), precision.view(-1)
-        return mean.view(-1, dim), precision.view(-1, dim)
+        return mean, precision
 
     def __call__(self, pdfvecs, stats):
         if len(pdfvecs.shape) == 1:
-- 
2.43.0


From 344e09a973f4438a513850ebaae9fbd0d1bdf654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:36 +0000
Subject: [PATCH 12/58] fix: statistics and pdf vectors of the Normal
 likelihood with known covariance

---
 beer/dists/normaldiag.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beer/dists/normaldiag.py b/beer/dists/normaldiag.py
index 393e338..b04d04d 100644
--- a/beer/dists/normaldiag.py
+++ b/beer/dists/normaldiag.py
@@ -25,14 +25,14 @@ class NormalFixedDiagonalCovarianceLikelihood(ConjugateLikelihood):
                       'requires_grad': False}
         return torch.cat([
             data,
-            -.5 * torch.ones_like(data, **tensorconf),
+            torch.ones_like(data, **tensorconf),
         ], dim=-1)
 
     def parameters_from_pdfvector(self, pdfvec):
-        return pdfvec[:self.dim]
+        return pdfvec[..., :self.dim]
 
     def pdfvectors_from_rvectors(self, rvecs):
-        return torch.cat([rvecs, rvecs**2], dim=-1)
+        return torch.cat([rvecs, -.5 * rvecs**2], dim=-1)
 
     def __call__(self, pdfvecs, stats):
         if len(pdfvecs.shape) == 1:
-- 
2.43.0


From 65a7686a590e684f49d20b402d0ff41033a91609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:36 +0000
Subject: [PATCH 13/58] fix: log-likelihood and statistics of the Gamma model

---
 beer/dists/gamma.py  | 2 +-
 beer/models/gamma.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/beer/dists/gamma.py b/beer/dists/gamma.py
index 733a141..fdafbee 100644
--- a/beer/dists/gamma.py
+++ b/beer/dists/gamma.py
@@ -22,7 +22,7 @@ class GammaLikelihood(ConjugateLikelihood):
     def sufficient_statistics(data):
         dim, dtype, device = data.shape[1], data.dtype, data.device
         return torch.cat([
-            -data,
+            data,
             data.log(),
             torch.ones(len(data), 1, dtype=data.dtype, device=data.device)
         ], dim=-1)
diff --git a/beer/models/gamma.py b/beer/models/gamma.py
index c9bb059..7c7563d 100644
--- a/beer/models/gamma.py
+++ b/beer/models/gamma.py
@@ -67,7 +67,7 @@ class Gamma(Model):
 
     def expected_log_likelihood(self, stats):
         nparams = self.rate.natural_form()
-        dim = nparams.shape[-1]
+        dim = nparams.shape[-1] // 2
         rate = nparams[:dim]
         log_rate = nparams[dim:]
         lnorm = torch.lgamma(self.shape) - self.shape * log_rate
@@ -77,7 +77,7 @@ class Gamma(Model):
             (self.shape - 1), 
             -lnorm,
         ], dim=-1)
-        return self.rate.likelihood_fn(nparams, stats)
+        return self.rate.likelihood_fn(final_nparams, stats)
 
     def accumulate(self, stats):
         dim = stats.shape[-1] // 2
-- 
2.43.0


From f9cf6cf0e8e8c77224e8ff62c1dee2e1fad7283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:35 +0000
Subject: [PATCH 14/58] fix: posteriors of a mixture

---
 beer/models/mixture.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/models/mixture.py b/beer/models/mixture.py
index dbebdab..99138ba 100644
--- a/beer/models/mixture.py
+++ b/beer/models/mixture.py
@@ -108,7 +108,8 @@ class Mixture(DiscreteLatentModel):
 
     def posteriors(self, data):
         stats = self.modelset.sufficient_statistics(data)
-        log_weights = self.weights.expected_natural_parameters().view(1, -1)
+        tensorconf = {'dtype': stats.dtype, 'device': stats.device}
+        log_weights = self._log_weights(tensorconf)[None]
         per_component_exp_llh = self.modelset.expected_log_likelihood(stats)
         per_component_exp_llh += log_weights
         lognorm = torch.logsumexp(per_component_exp_llh, dim=1).view(-1)
-- 
2.43.0


From 931b858ea1320dd51f507ccd94045a7741f5dd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:05 +0000
Subject: [PATCH 15/58] fix: creating Normal models from a scalar covariance

---
 beer/models/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/normal.py b/beer/models/normal.py
index 2c63439..c83913b 100644
--- a/beer/models/normal.py
+++ b/beer/models/normal.py
@@ -21,7 +21,7 @@ class UnknownCovarianceType(Exception): pass
 # Return a full covariance matrix whether the user has specified a
 # scalar, a diagonal or a full matrix.
 def _full_cov(cov, dim, tensorconf):
-    if len(cov.shape) == 1 and cov.shape[0] == 1:
+    if len(cov.shape) == 0 or (len(cov.shape) == 1 and cov.shape[0] == 1):
         return cov * torch.eye(dim, **tensorconf)
     elif len(cov.shape) == 1:
         return cov.diag()
-- 
2.43.0


From fdda35c7509e85f3792b259666b7bf1471379eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:17 +0000
Subject: [PATCH 16/58] fix: slices and negative indices of a set of mixtures

---
 beer/models/mixtureset.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/beer/models/mixtureset.py b/beer/models/mixtureset.py
index 1a7fb39..b79f49a 100644
--- a/beer/models/mixtureset.py
+++ b/beer/models/mixtureset.py
@@ -120,14 +120,13 @@ class MixtureSet(ModelSet):
     def __getitem__(self, key):
         ncpm = self.n_comp_per_mixture
         if isinstance(key, int):
+            key = range(len(self))[key]
             s = slice(key * ncpm, (key + 1) * ncpm)
             return Mixture(self.categoricalset[key], self.modelset[s])
         if isinstance(key, slice):
-            start = 0 if key.start is None else key.start * ncpm
-            stop = len(self) if key.stop is None else key.stop * ncpm
-            step = 1 if key.step is None else key.step * ncpm
-            new_s = slice(start, stop, step)
-            return self.__class__(self.categoricalset[key],
-                                  self.modelset[new_s])
+            start, stop, step = key.indices(len(self))
+            if step == 1:
+                return self.__class__(self.categoricalset[start:stop],
+                                      self.modelset[start * ncpm:stop * ncpm])
         raise IndexError(f'Unsupported index: {key}')
 
-- 
2.43.0


From 18c45c96816c14f54ae17d40567366878a8d6a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:58 +0000
Subject: [PATCH 17/58] fix: training an HMM with the best path or a given path
 of a short utterance

---
 beer/models/hmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index 6c5dd2c..42a9f6c 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -55,7 +55,7 @@ class HMM(DiscreteLatentModel):
                 retval = posts, trans_posts
             else:
                 retval = posts
-            llh = pc_llhs[path].sum()
+            llh = pc_llhs[range(len(pc_llhs)), path].sum()
         else:
             retval, llh = inference_graph.posteriors(pc_llhs,
                                                 trans_posteriors=trans_posteriors)
-- 
2.43.0


From 34039130308579a47ffa7383aedf2e5542ef3e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:58 +0000
Subject: [PATCH 18/58] fix: transition statistics of a previous utterance
 reused with an alignment graph

---
 beer/models/hmm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index 42a9f6c..8c3ed6d 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -84,6 +84,8 @@ class HMM(DiscreteLatentModel):
             self.cache['resps'], self.cache['trans_resps'] = all_resps
         else:
             self.cache['resps'] = all_resps
+            # Discard the transitions of a previous call.
+            self.cache.pop('trans_resps', None)
         exp_llh = (pc_llhs * self.cache['resps']).sum(dim=-1)
         self.cache['scale'] = scale
 
-- 
2.43.0


From bc8a8f27a2bb4c8e0a5cb4c4c4c562821d58dbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:59 +0000
Subject: [PATCH 19/58] fix: scale of the HMM posteriors

---
 beer/models/hmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index 8c3ed6d..4df6f7f 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -118,7 +118,7 @@ class HMM(DiscreteLatentModel):
     def posteriors(self, data, inference_graph=None, scale=1.0):
         if inference_graph is None:
             inference_graph = self.graph
-        stats = self.modelset.sufficient_statistics(data) * scale
-        pc_llhs = self._pc_llhs(stats, inference_graph)
+        stats = self.modelset.sufficient_statistics(data)
+        pc_llhs = scale * self._pc_llhs(stats, inference_graph)
         return self._inference(pc_llhs, inference_graph)[0]
 
-- 
2.43.0


From c8e48a4f2b64387f80257ca3eafba0676e279e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:06 +0000
Subject: [PATCH 20/58] fix: successor weights of a bigram phone loop were
 transposed

---
 beer/models/categoricalset.py | 2 +-
 beer/models/phoneloop.py      | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/beer/models/categoricalset.py b/beer/models/categoricalset.py
index 26fba4a..297367d 100644
--- a/beer/models/categoricalset.py
+++ b/beer/models/categoricalset.py
@@ -298,7 +298,7 @@ class SBCategoricalSet(Model):
 
     def expected_log_likelihood(self, stats):
         log_prob, _ = self._log_prob()
-        return stats @ log_prob[:, self.reverse_ordering]
+        return stats @ log_prob[:, self.reverse_ordering].t()
 
     def accumulate(self, stats):
         raise NotImplementedError 
diff --git a/beer/models/phoneloop.py b/beer/models/phoneloop.py
index ad82538..9687148 100644
--- a/beer/models/phoneloop.py
+++ b/beer/models/phoneloop.py
@@ -148,7 +148,8 @@ class BigramPhoneLoop(HMM):
                       'requires_grad': False}
         data = torch.eye(len(self.start_pdf), **tensorconf)
         stats = self.categoricalset.sufficient_statistics(data)
-        log_weights = self.categoricalset.expected_log_likelihood(stats)
+        # One row per unit (the columns are the successors).
+        log_weights = self.categoricalset.expected_log_likelihood(stats).t()
         start_idxs = [value for value in self.start_pdf.values()]
         for i, end_idx in enumerate(self.end_pdf.values()):
             loop_prob = self.graph.trans_log_probs[end_idx, end_idx].exp()
-- 
2.43.0


From 31054bf0ac71aae1b2a35406121d8bff8c11fceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:06 +0000
Subject: [PATCH 21/58] fix: training a bigram phone loop with alignments

---
 beer/models/phoneloop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/models/phoneloop.py b/beer/models/phoneloop.py
index 9687148..a0e999f 100644
--- a/beer/models/phoneloop.py
+++ b/beer/models/phoneloop.py
@@ -188,5 +188,6 @@ class BigramPhoneLoop(HMM):
         else:
             fake_stats = torch.zeros_like(self.categoricalset.mean,
                                           requires_grad=False)
-            retval.update(self.categoricalset.accumulate(fake_stats[None, :]))
+            retval.update(self.categoricalset.accumulate_from_jointresps(
+                fake_stats[None]))
         return retval
-- 
2.43.0


From 5ccb1e4012e3532a98f3096709d80b6c4ffed103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:06 +0000
Subject: [PATCH 22/58] fix: prior of a set of stick-breaking weights whose
 root has been reordered

---
 beer/models/categoricalset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beer/models/categoricalset.py b/beer/models/categoricalset.py
index 297367d..d929cd5 100644
--- a/beer/models/categoricalset.py
+++ b/beer/models/categoricalset.py
@@ -169,8 +169,11 @@ def _default_set_sb_param(n_components, root_sb_categorical, prior_strength):
     tensorconf = {'dtype': mean.dtype, 'device': mean.device}
     params = torch.ones(n_components, len(root_sb_categorical.stickbreaking), 2,
                         **tensorconf)
+    # The remaining stick depends on the current order of the root.
+    remainder = 1 - mean[root_sb_categorical.ordering].cumsum(dim=0)
     params[:, :, 0] = prior_strength * mean
-    params[:, :, 1] = prior_strength * (1 - mean.cumsum(dim=0))
+    params[:, :, 1] = prior_strength \
+                      * remainder[root_sb_categorical.reverse_ordering]
     params = params.reshape(-1, 2)
     prior = Dirichlet.from_std_parameters(params)
     post = root_sb_categorical.stickbreaking.posterior
-- 
2.43.0


From 931fb970a5fa6173218934f90248ef2fa9ffb0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:27 +0000
Subject: [PATCH 23/58] fix: np.float was removed from numpy

---
 beer/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/features.py b/beer/features.py
index 232b3a0..27524fc 100644
--- a/beer/features.py
+++ b/beer/features.py
@@ -31,7 +31,7 @@ def bark2hz(bark):
 def __triangle(center, start, end, freqs):
     'Create triangular filter.'
     slopes = 1. / (center - start), 1./ (end - center)
-    retval = np.zeros_like(freqs).astype(np.float)
+    retval = np.zeros_like(freqs).astype(float)
     idxs = np.logical_and(freqs >= start, freqs <= center)
     retval[idxs] = np.linspace(slopes[0] * (freqs[idxs][0] - start),
                                slopes[0] * (freqs[idxs][-1] - start),
-- 
2.43.0


From 816bbb8051fc8fd21a97c14290468fe4f894da8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:27 +0000
Subject: [PATCH 24/58] fix: filter banks ignored the sampling rate

---
 beer/cli/subcommands/features/extract.py | 1 +
 beer/features.py                         | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/features/extract.py b/beer/cli/subcommands/features/extract.py
index 02c591b..78ee836 100644
--- a/beer/cli/subcommands/features/extract.py
+++ b/beer/cli/subcommands/features/extract.py
@@ -118,6 +118,7 @@ def main(args, logger):
         if feaconf['apply_fbank']:
             logger.debug(f'applying filter bank (F={feaconf["nfilters"]})')
             fbank = beer.features.create_fbank(feaconf['nfilters'], fft_len,
+                                               srate=feaconf['srate'],
                                                lowfreq=feaconf['cutoff_lfreq'],
                                                highfreq=feaconf['cutoff_hfreq'])
             melspec = melspec @ fbank.T
diff --git a/beer/features.py b/beer/features.py
index 27524fc..299ad96 100644
--- a/beer/features.py
+++ b/beer/features.py
@@ -198,7 +198,8 @@ def fbank(signal, flen=0.025, frate=0.01, hifreq=8000, lowfreq=20, nfilters=26,
     magspec = np.abs(np.fft.rfft(frames, n=fft_len, axis=-1)[:, :-1])
 
     # Filtering.
-    filters = create_fbank(nfilters, fft_len, lowfreq=lowfreq, highfreq=hifreq)
+    filters = create_fbank(nfilters, fft_len, srate=srate, lowfreq=lowfreq,
+                           highfreq=hifreq)
     melspec = magspec @ filters.T
 
     return np.log(melspec + 1)
-- 
2.43.0


From 76dcdcd545e897694a5cf5a9621d53902d06eb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:14 +0000
Subject: [PATCH 25/58] fix: yaml.load requires a loader

---
 beer/cli/subcommands/features/extract.py   | 2 +-
 beer/cli/subcommands/hmm/mkphones.py       | 2 +-
 beer/cli/subcommands/hshmm/mksphoneloop.py | 2 +-
 beer/cli/subcommands/shmm/mksphoneloop.py  | 2 +-
 recipes/aud/utils/nmi.py                   | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/beer/cli/subcommands/features/extract.py b/beer/cli/subcommands/features/extract.py
index 78ee836..3f32d2c 100644
--- a/beer/cli/subcommands/features/extract.py
+++ b/beer/cli/subcommands/features/extract.py
@@ -61,7 +61,7 @@ def main(args, logger):
 
     # Override the default configuration.
     with open(args.feaconf, 'r') as fid:
-        new_conf = yaml.load(fid)
+        new_conf = yaml.safe_load(fid)
 
     # Check for unknown options.
     for key in new_conf:
diff --git a/beer/cli/subcommands/hmm/mkphones.py b/beer/cli/subcommands/hmm/mkphones.py
index df84e89..5aa8fa6 100644
--- a/beer/cli/subcommands/hmm/mkphones.py
+++ b/beer/cli/subcommands/hmm/mkphones.py
@@ -74,7 +74,7 @@ def setup(parser):
 def main(args, logger):
     logger.debug(f'reading configuration file: {args.conf}')
     with open(args.conf, 'r') as f:
-        conf = yaml.load(f)
+        conf = yaml.safe_load(f)
     groups_conf = {group_conf['group_name']: group_conf for group_conf in conf}
 
     logger.debug(f'load the acoustic units name and group')
diff --git a/beer/cli/subcommands/hshmm/mksphoneloop.py b/beer/cli/subcommands/hshmm/mksphoneloop.py
index f05dfe9..f19633b 100644
--- a/beer/cli/subcommands/hshmm/mksphoneloop.py
+++ b/beer/cli/subcommands/hshmm/mksphoneloop.py
@@ -75,7 +75,7 @@ def setup(parser):
 def main(args, logger):
     logger.debug(f'reading configuration file: {args.conf}')
     with open(args.conf, 'r') as f:
-        conf = yaml.load(f)
+        conf = yaml.safe_load(f)
 
     logger.debug(f'loading the configuration for the group: {args.unit_group}')
     for groupidx, groupconf in enumerate(conf):
diff --git a/beer/cli/subcommands/shmm/mksphoneloop.py b/beer/cli/subcommands/shmm/mksphoneloop.py
index a9b610c..5207670 100644
--- a/beer/cli/subcommands/shmm/mksphoneloop.py
+++ b/beer/cli/subcommands/shmm/mksphoneloop.py
@@ -72,7 +72,7 @@ def setup(parser):
 def main(args, logger):
     logger.debug(f'reading configuration file: {args.conf}')
     with open(args.conf, 'r') as f:
-        conf = yaml.load(f)
+        conf = yaml.safe_load(f)
 
     logger.debug(f'loading the configuration for the group: {args.unit_group}')
     for groupidx, groupconf in enumerate(conf):
diff --git a/recipes/aud/utils/nmi.py b/recipes/aud/utils/nmi.py
index a36237b..35db46e 100755
--- a/recipes/aud/utils/nmi.py
+++ b/recipes/aud/utils/nmi.py
@@ -13,7 +13,7 @@ def main():
     args = parser.parse_args()
 
     with open(args.counts, 'r') as f:
-        au2phone = yaml.load(f)
+        au2phone = yaml.safe_load(f)
 
     # Extract the list of acoustic units / phones.
     au_set = set()
-- 
2.43.0


From 4650e9e73b6058bc0a87f4bf2940affb67ce9cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:23 +0000
Subject: [PATCH 26/58] fix: boundary scoring of an utterance whose reference
 has no boundary

---
 recipes/aud/utils/score_boundaries.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recipes/aud/utils/score_boundaries.py b/recipes/aud/utils/score_boundaries.py
index f4c2afb..570de4e 100644
--- a/recipes/aud/utils/score_boundaries.py
+++ b/recipes/aud/utils/score_boundaries.py
@@ -30,6 +30,8 @@ def boundaries(utt):
 
 def get_hits(ref_bounds_, hyp_bounds, delta=1):
     hits = 0
+    if len(ref_bounds_) == 0:
+        return hits
     ref_bounds = copy.deepcopy(ref_bounds_)
     for b in hyp_bounds:
         diff = np.abs(b - ref_bounds)
-- 
2.43.0


From 4ec648bf851c640254a38e3b9b701f2f9796bb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:00 +0000
Subject: [PATCH 27/58] fix: labels missing from the mapping were confused when
 scoring boundaries

---
 recipes/aud/utils/score_boundaries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/aud/utils/score_boundaries.py b/recipes/aud/utils/score_boundaries.py
index 570de4e..841527c 100644
--- a/recipes/aud/utils/score_boundaries.py
+++ b/recipes/aud/utils/score_boundaries.py
@@ -57,7 +57,7 @@ def load_mapping(path):
 
 def map_trans(trans, mapfile):
     new_trans = {}
-    oov_i = 1
+    oov_i = len(mapfile) + 1
     for utt, utt_trans in trans.items():
         tmp = []
         for token in utt_trans:
-- 
2.43.0


From e95f448a4cc01a14d460c3e884cba48857378832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:58 +0000
Subject: [PATCH 28/58] fix: log-sum-exp of a one-dimensional tensor

---
 beer/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/utils.py b/beer/utils.py
index b84e66c..8f95514 100644
--- a/beer/utils.py
+++ b/beer/utils.py
@@ -120,7 +120,7 @@ def logsumexp(tensor, dim=0):
          )
     new_size = list(tensor.size())
     del new_size[dim]
-    return retval.view(*new_size)
+    return retval.view(new_size)
 
 
 def symmetrize_matrix(mat):
-- 
2.43.0


From 2aeea1ab2b38a599e02769b7e2f74cc21e7a661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:58 +0000
Subject: [PATCH 29/58] fix: eigen-decomposition with the installed torch

---
 beer/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/utils.py b/beer/utils.py
index 8f95514..22d758b 100644
--- a/beer/utils.py
+++ b/beer/utils.py
@@ -149,7 +149,7 @@ def make_symposdef(mat, eval_threshold=1e-1):
 
     '''
     sym_mat = symmetrize_matrix(mat)
-    evals, evecs = torch.symeig(sym_mat, eigenvectors=True)
+    evals, evecs = torch.linalg.eigh(sym_mat)
 
     threshold = torch.tensor(eval_threshold, dtype=sym_mat.dtype,
                              device=sym_mat.device)
-- 
2.43.0


From fbbfa760c973cca59108645f4a545bdc00764daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:58 +0000
Subject: [PATCH 30/58] fix: rows of the jacobian accumulated the previous rows

---
 beer/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/utils.py b/beer/utils.py
index 22d758b..f1b7cd2 100644
--- a/beer/utils.py
+++ b/beer/utils.py
@@ -197,9 +197,9 @@ def jacobians(outputs, inputs):
     dim, dtype, device = len(outputs), outputs.dtype, outputs.device
     jac_matrices = [torch.zeros(dim, len(tensor.view(-1)), dtype=dtype,
                     device=device) for tensor in inputs]
-    for input_tensor in inputs:
-        input_tensor.grad = None
     for i in range(dim):
+        for input_tensor in inputs:
+            input_tensor.grad = torch.zeros_like(input_tensor)
         autograd.backward(outputs[i], retain_graph=True)
         for j, in_tensor in enumerate(inputs):
             jac_matrices[j][i, :] = in_tensor.grad.view(-1)
-- 
2.43.0


From 26ede4b0e5d3cbb99cb31c8a2099e9e4c614ce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:58 +0000
Subject: [PATCH 31/58] fix: creating the HMMs when a configured group has no
 unit

---
 beer/cli/subcommands/hmm/mkphones.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beer/cli/subcommands/hmm/mkphones.py b/beer/cli/subcommands/hmm/mkphones.py
index 5aa8fa6..f262966 100644
--- a/beer/cli/subcommands/hmm/mkphones.py
+++ b/beer/cli/subcommands/hmm/mkphones.py
@@ -100,6 +100,8 @@ def main(args, logger):
     pdfs = []
     units = {}
     for group in grouped_unitnames:
+        if not grouped_unitnames[group]:
+            continue
         logger.debug(f'creating HMM for group "{group}"')
         tot_emitting_states = 0
         for name in grouped_unitnames[group]:
-- 
2.43.0


From c26caada25553aba00475896a35a955c725daa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:58 +0000
Subject: [PATCH 32/58] fix: unit posteriors missed the last state of the unit

---
 beer/cli/subcommands/hmm/posteriors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/posteriors.py b/beer/cli/subcommands/hmm/posteriors.py
index db3edb3..35798b5 100644
--- a/beer/cli/subcommands/hmm/posteriors.py
+++ b/beer/cli/subcommands/hmm/posteriors.py
@@ -31,7 +31,7 @@ def state2phone(posts, start_pdf, end_pdf):
     retval = np.zeros((len(posts), len(start_pdf)))
     for i, unit in enumerate(start_pdf):
         start, end = start_pdf[unit], end_pdf[unit]
-        retval[:, i] = posts[:, start:end].sum(axis=-1)
+        retval[:, i] = posts[:, start:end + 1].sum(axis=-1)
     return retval
 
 
-- 
2.43.0


From e6278bfa5ac8a7f242a3741c70bfbcc2babbf373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:58 +0000
Subject: [PATCH 33/58] fix: decoding an utterance that is not in the dataset

---
 beer/cli/subcommands/hmm/decode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/decode.py b/beer/cli/subcommands/hmm/decode.py
index 60f10ec..8fa942d 100644
--- a/beer/cli/subcommands/hmm/decode.py
+++ b/beer/cli/subcommands/hmm/decode.py
@@ -67,7 +67,7 @@ def main(args, logger):
         try:
             utt = dataset[uttname]
         except KeyError:
-            logger.warning(f'no utterance {utt} in {args.dataset}')
+            logger.warning(f'no utterance {uttname} in {args.dataset}')
             continue
 
         aligraph = None
-- 
2.43.0


From fb606d7c56822ad51db2d751db101f5651d9263d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:58 +0000
Subject: [PATCH 34/58] fix: decoding with alignment graphs

---
 beer/cli/subcommands/hmm/decode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/decode.py b/beer/cli/subcommands/hmm/decode.py
index 8fa942d..45ad3a3 100644
--- a/beer/cli/subcommands/hmm/decode.py
+++ b/beer/cli/subcommands/hmm/decode.py
@@ -51,7 +51,7 @@ def main(args, logger):
     alis = None
     if args.alis:
         logger.debug('loading alignment graphs')
-        alis = np.load(args.alis)
+        alis = np.load(args.alis, allow_pickle=True)
 
     if args.utts:
         if args.utts == '-':
-- 
2.43.0


From a04e1f3de11702149180242e4f695507e9b5f3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:58 +0000
Subject: [PATCH 35/58] fix: accumulating an utterance that is not in the
 dataset

---
 beer/cli/subcommands/hmm/accumulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/accumulate.py b/beer/cli/subcommands/hmm/accumulate.py
index 3aeb481..4718bd0 100644
--- a/beer/cli/subcommands/hmm/accumulate.py
+++ b/beer/cli/subcommands/hmm/accumulate.py
@@ -42,7 +42,7 @@ def main(args, logger):
         try:
             utt = dataset[uttid]
         except KeyError:
-            logger.warning(f'no utterance {utt} in {args.dataset}')
+            logger.warning(f'no utterance {uttid} in {args.dataset}')
             continue
         aligraph = None
         if alis:
-- 
2.43.0


From 5c77d1f4f93072e70858eab23ff62841266771ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:08 +0000
Subject: [PATCH 36/58] fix: accumulating an empty list of utterances

---
 beer/cli/subcommands/hmm/accumulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/accumulate.py b/beer/cli/subcommands/hmm/accumulate.py
index 4718bd0..543e8c2 100644
--- a/beer/cli/subcommands/hmm/accumulate.py
+++ b/beer/cli/subcommands/hmm/accumulate.py
@@ -62,7 +62,7 @@ def main(args, logger):
     with open(args.out, 'wb') as f:
         pickle.dump((elbo, count), f)
 
-    logger.info(f'accumulated ELBO over {count} utterances: {float(elbo) / (count * dataset.size) :.3f}.')
+    logger.info(f'accumulated ELBO over {count} utterances: {float(elbo) / (max(count, 1) * dataset.size) :.3f}.')
 
 if __name__ == "__main__":
     main()
-- 
2.43.0


From d51e5384472acf27dae32071fe2c3ee77db21e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:08 +0000
Subject: [PATCH 37/58] fix: single machine training used an optimizer that
 does not exist

---
 beer/cli/subcommands/hmm/train.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beer/cli/subcommands/hmm/train.py b/beer/cli/subcommands/hmm/train.py
index f36fbdf..3e36627 100644
--- a/beer/cli/subcommands/hmm/train.py
+++ b/beer/cli/subcommands/hmm/train.py
@@ -31,8 +31,10 @@ def main(args, logger):
         dataset = pickle.load(f)
 
     logger.debug('create the optimizer')
-    optim = beer.BayesianModelOptimizer(model.mean_field_factorization(),
-                                        lrate=args.lrate)
+    optim = beer.VBConjugateOptimizer(
+        model.conjugate_bayesian_parameters(keepgroups=True),
+        lrate=args.lrate
+    )
 
     for epoch in range(1, args.epochs + 1):
         elbo = beer.evidence_lower_bound(datasize=dataset.size)
-- 
2.43.0


From 0465f036c5fe7fa957f4f2dd229b32d5ba069b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:08 +0000
Subject: [PATCH 38/58] fix: single machine training with all the utterances as
 one batch

---
 beer/cli/subcommands/hmm/train.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beer/cli/subcommands/hmm/train.py b/beer/cli/subcommands/hmm/train.py
index 3e36627..14e4e8d 100644
--- a/beer/cli/subcommands/hmm/train.py
+++ b/beer/cli/subcommands/hmm/train.py
@@ -36,6 +36,7 @@ def main(args, logger):
         lrate=args.lrate
     )
 
+    batch_size = args.batch_size if args.batch_size > 0 else len(dataset)
     for epoch in range(1, args.epochs + 1):
         elbo = beer.evidence_lower_bound(datasize=dataset.size)
         optim.init_step()
@@ -45,12 +46,12 @@ def main(args, logger):
                                               datasize=dataset.size)
 
             # Update the model after N utterances.
-            if i % args.batch_size == 0:
+            if i % batch_size == 0:
                 elbo.backward()
                 optim.step()
                 logger.info(f'{"epoch=" + str(epoch):<20}  ' \
-                            f'{"batch=" + str(i // args.batch_size) + "/" + str(int(len(dataset) / args.batch_size)):<20} ' \
-                            f'{"ELBO=" + str(round(float(elbo) / (args.batch_size * dataset.size), 3)):<20}')
+                            f'{"batch=" + str(i // batch_size) + "/" + str(int(len(dataset) / batch_size)):<20} ' \
+                            f'{"ELBO=" + str(round(float(elbo) / (batch_size * dataset.size), 3)):<20}')
                 elbo = beer.evidence_lower_bound(datasize=dataset.size)
                 optim.init_step()
 
-- 
2.43.0


From 3a2e2bb7c85e856505a643a73488712e220deab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:37 +0000
Subject: [PATCH 39/58] fix: parameters of concatenated model sets could not be
 replaced

---
 beer/models/basemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/basemodel.py b/beer/models/basemodel.py
index c190832..a8761da 100644
--- a/beer/models/basemodel.py
+++ b/beer/models/basemodel.py
@@ -90,7 +90,7 @@ class Model(torch.nn.Module, metaclass=abc.ABCMeta):
         for name, child in module.named_children():
             if child in paramsmap:
                 module.add_module(name, paramsmap[child])
-            elif isinstance(child, Model):
+            elif isinstance(child, (Model, torch.nn.ModuleList)):
                 Model._replace_params(child, paramsmap)
 
     def replace_parameters(self, paramsmap):
-- 
2.43.0


From 4fabc02a5e79a985b01aa71386f329ed5ad668fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:58 +0000
Subject: [PATCH 40/58] fix: autoregressive network with a single input could
 not be created

---
 beer/nnet/arnet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/nnet/arnet.py b/beer/nnet/arnet.py
index 215fe14..f090e4d 100644
--- a/beer/nnet/arnet.py
+++ b/beer/nnet/arnet.py
@@ -107,7 +107,7 @@ def AutoRegressiveNetwork(dim_in, flow_params_dim, depth, width, activation):
     ordering = range(dim_in)
     layer_connections = []
     for i in range(depth):
-        layer_connections.append(random.choices(range(0, dim_in - 1), k=width))
+        layer_connections.append(random.choices(range(0, max(1, dim_in - 1)), k=width))
     arch = []
     previous_ordering = ordering
     previous_dim = dim_in
-- 
2.43.0


From c360c06a9674430cc8a7568a121237b81136bb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:12 +0000
Subject: [PATCH 41/58] fix: normalising constant missing from the density of
 the mean of a flow

---
 beer/nnet/problayers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/nnet/problayers.py b/beer/nnet/problayers.py
index ba18f4b..43e44f1 100644
--- a/beer/nnet/problayers.py
+++ b/beer/nnet/problayers.py
@@ -182,7 +182,7 @@ class InverseAutoRegressiveFlow(ProbabilisticLayer):
         dim = means.shape[-1]
         if use_mean:
             flow = means
-            llhs = torch.zeros_like(means[:, 0])
+            llhs = torch.full_like(means[:, 0], -.5 * dim * math.log(2 * math.pi))
         else:
             dtype, device = means.dtype, means.device
             noise = torch.randn(*means.shape, dtype=dtype, device=device)
-- 
2.43.0


From 5680c24f7c515b8764635e993698a366e8feeec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:12 +0000
Subject: [PATCH 42/58] fix: merging transforms overwrote the caller's input

---
 beer/nnet/neuralnetwork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/nnet/neuralnetwork.py b/beer/nnet/neuralnetwork.py
index aab4f82..872201a 100644
--- a/beer/nnet/neuralnetwork.py
+++ b/beer/nnet/neuralnetwork.py
@@ -63,7 +63,7 @@ class MergeTransform(torch.nn.Module):
     def forward(self, *inputs):
         retval = self.transforms[0](inputs[0])
         for input_data, transform in zip(inputs[1:], self.transforms[1:]):
-            retval += transform(input_data)
+            retval = retval + transform(input_data)
         return retval
 
 
-- 
2.43.0


From 66702dc60b06553f03bc4e4a0e0abe4f684046ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:13 +0000
Subject: [PATCH 43/58] fix: merged elements after the first were ignored
 inside a block

---
 beer/nnet/neuralnetwork.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beer/nnet/neuralnetwork.py b/beer/nnet/neuralnetwork.py
index 872201a..bf11dc5 100644
--- a/beer/nnet/neuralnetwork.py
+++ b/beer/nnet/neuralnetwork.py
@@ -61,6 +61,9 @@ class MergeTransform(torch.nn.Module):
         self.transforms = torch.nn.Sequential(*transforms)
 
     def forward(self, *inputs):
+        # A single input is shared by all the transforms.
+        if len(inputs) == 1:
+            inputs = inputs * len(self.transforms)
         retval = self.transforms[0](inputs[0])
         for input_data, transform in zip(inputs[1:], self.transforms[1:]):
             retval = retval + transform(input_data)
-- 
2.43.0


From b99e98d8e5404cb07efc4e6e40d1965db19956c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:27 +0000
Subject: [PATCH 44/58] fix: auto-encoder mixed the values of different data
 points

---
 beer/models/vae.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/vae.py b/beer/models/vae.py
index eba1a7f..8f998e1 100644
--- a/beer/models/vae.py
+++ b/beer/models/vae.py
@@ -73,7 +73,7 @@ class VAE(Model):
         s_samples = self.prior.sufficient_statistics(samples.view(-1, samples.shape[-1]))
         s_samples = s_samples.reshape(len(samples), -1, s_samples.shape[-1]).mean(dim=1)
         self.cache['prior_stats'] = s_samples
-        xent = -self.prior.expected_log_likelihood(s_samples)
+        xent = -self.prior.expected_log_likelihood(s_samples).reshape(-1)
         local_kl_div = xent - ent
         
         # Approximate the expected log-likelihood with the
@@ -81,7 +81,7 @@ class VAE(Model):
         pdfs = self.pdfs(samples.view(-1, samples.shape[-1]))
         r_data = data[:, None, :].repeat(1, nsamples, 1).view(-1, data.shape[-1])
         llh = pdfs(pdfs.sufficient_statistics(r_data), pdfwise=True)
-        llh = llh.reshape(len(data), nsamples, -1).mean(dim=1)
+        llh = llh.reshape(len(data), nsamples).mean(dim=1)
         
         return llh_weight * llh - kl_weight * local_kl_div
 
-- 
2.43.0


From 091fa857a1056a62d51c474aa912062faecf0a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:10 +0000
Subject: [PATCH 45/58] fix: view of a subspace parameter had no natural form

---
 beer/models/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index b5a3f32..8bac50b 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -397,7 +397,7 @@ class SubspaceBayesianParameterView(ConjugateBayesianParameter):
         return self.likelihood_fn.parameters_from_pdfvector(self.pdfvec)
 
     def natural_form(self):
-        self.pdfvec
+        return self.pdfvec
 
     def kl_div_posterior_prior(self):
         return self.param.kl_div_posterior_prior()
-- 
2.43.0


From 38781dfd3e98831b11efe0a28b81b14f427b9ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:10 +0000
Subject: [PATCH 46/58] fix: models stored with their subspace could not be
 updated once loaded

---
 beer/models/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index 8bac50b..7d914c7 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -446,7 +446,7 @@ def _update_params(params, pdfvecs):
     for param in params:
         totdim = param.stats.numel()
         shape = param.stats.shape
-        param.pdfvec = pdfvecs[idx: idx + totdim].reshape(shape)
+        param.pdfvec = pdfvecs[idx: idx + totdim].detach().reshape(shape)
         idx += totdim
 
 # Update the models given a set of pdf-vectors.
-- 
2.43.0


From 245eea3ad7cdeed8631f3f6dd5026c48dbfda066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:26 +0000
Subject: [PATCH 47/58] fix: view of a view of a subspace parameter showed the
 wrong rows

---
 beer/models/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index 7d914c7..858faa6 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -403,7 +403,7 @@ class SubspaceBayesianParameterView(ConjugateBayesianParameter):
         return self.param.kl_div_posterior_prior()
 
     def __getitem__(self, key):
-        return SubspaceBayesianParameterView(key, self.param)
+        return SubspaceBayesianParameterView(key, self)
 
 
 ########################################################################
-- 
2.43.0


From d9b8e8d54d8c35f222849b31c758f8e06ecf7c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:07 +0000
Subject: [PATCH 48/58] fix: default prior of the bigram phone-loop command was
 not one of its choices

---
 beer/cli/subcommands/hmm/mkphoneloopbigram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/mkphoneloopbigram.py b/beer/cli/subcommands/hmm/mkphoneloopbigram.py
index 00fa5f0..435b21a 100644
--- a/beer/cli/subcommands/hmm/mkphoneloopbigram.py
+++ b/beer/cli/subcommands/hmm/mkphoneloopbigram.py
@@ -25,7 +25,7 @@ priors = {
 
 
 def setup(parser):
-    parser.add_argument('--weights-prior', default='gamma_dirichlet_process',
+    parser.add_argument('--weights-prior', default='hierarchical_dirichlet_process',
                         choices=[key for key in priors],
                         help='type of prior over the phone weights')
     parser.add_argument('phoneloop', help='unigram phone loop')
-- 
2.43.0


From 73b60a7950dcccd28021d7b45116a6cad6d25598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:07 +0000
Subject: [PATCH 49/58] fix: bigram phone-loop command wrapped the emissions
 twice

---
 beer/cli/subcommands/hmm/mkphoneloopbigram.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/mkphoneloopbigram.py b/beer/cli/subcommands/hmm/mkphoneloopbigram.py
index 435b21a..fb06646 100644
--- a/beer/cli/subcommands/hmm/mkphoneloopbigram.py
+++ b/beer/cli/subcommands/hmm/mkphoneloopbigram.py
@@ -41,7 +41,8 @@ def main(args, logger):
                                                 ploop.categorical)
     logger.debug('create the bigram phone-loop model...')
     ploop2 = beer.BigramPhoneLoop.create(ploop.graph, ploop.start_pdf,
-                                         ploop.end_pdf, ploop.modelset,
+                                         ploop.end_pdf,
+                                         ploop.modelset.original_modelset,
                                          categoricalset)
 
     logger.debug('saving the model on disk...')
-- 
2.43.0


From b9d82ce56f0eeece3dd651930d9751131cb819a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:07 +0000
Subject: [PATCH 50/58] fix: initial posteriors of the subspace phone-loop were
 erased instead of read

---
 beer/cli/subcommands/shmm/mksphoneloop.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/shmm/mksphoneloop.py b/beer/cli/subcommands/shmm/mksphoneloop.py
index 5207670..e7d9f8f 100644
--- a/beer/cli/subcommands/shmm/mksphoneloop.py
+++ b/beer/cli/subcommands/shmm/mksphoneloop.py
@@ -158,8 +158,11 @@ def main(args, logger):
         gsm = beer.GSM.create(tpl, args.latent_dim, latent_prior)
         latent_posts = gsm.new_latent_posteriors(len(units))
         if args.posteriors:
-            with open(args.posteriors, 'wb') as f:
+            with open(args.posteriors, 'rb') as f:
                 init_posts = pickle.load(f)[0]
+            params, init_params = latent_posts.params, init_posts.params
+            params.mean.data[:] = init_params.mean.data
+            params.log_diag_cov.data[:] = init_params.log_diag_cov.data
         pdfvecs = gsm.expected_pdfvecs(latent_posts)
         gsm.update_models(units, pdfvecs)
     else:
-- 
2.43.0


From bcf400707cc16ee3b55cf7cd1d28272524529a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:10 +0000
Subject: [PATCH 51/58] fix: subspace models could not be placed when mixtures
 have a single component

---
 beer/models/gsm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index 858faa6..70da105 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -433,7 +433,8 @@ def _pdfvecs(params, rvecs):
         dim = lhf.sufficient_statistics_dim(zero_stats=False)
         npdfs = len(param)
         totdim = dim * npdfs
-        param_rvecs = rvecs[:, idx: idx + totdim].reshape(-1, dim)
+        param_rvecs = rvecs[:, idx: idx + totdim].reshape(len(rvecs) * npdfs,
+                                                          dim)
         pdfvec = lhf.pdfvectors_from_rvectors(param_rvecs)
         totdim_with_zerostats = npdfs * pdfvec.shape[-1]
         idx += totdim
-- 
2.43.0


From f7e5b6aa33344a9cde1b1cef92eb113d379a103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:34 +0000
Subject: [PATCH 52/58] fix: an utterance without hypothesis was compared with
 the hypothesis of another one

---
 recipes/timit_v2/utils/compare-alignments.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/recipes/timit_v2/utils/compare-alignments.py b/recipes/timit_v2/utils/compare-alignments.py
index c55760b..376691f 100644
--- a/recipes/timit_v2/utils/compare-alignments.py
+++ b/recipes/timit_v2/utils/compare-alignments.py
@@ -57,6 +57,7 @@ def main():
         except KeyError:
             logging.warning(f'{file} is in reference alignments but not ' \
                             'not the hypothesis alignments')
+            continue
 
         logging.debug(f'processing alignments for utterance {file}')
         for ref_state, hyp_state in zip(ref_ali, hyp_ali):
-- 
2.43.0


From bdc4ea23fcc39a767c8795fb4f81009f592fc715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:21 +0000
Subject: [PATCH 53/58] fix: the central frame of a token was computed from the
 second frame of the token

---
 recipes/timit_v2/utils/features-extract-central-frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/timit_v2/utils/features-extract-central-frame.py b/recipes/timit_v2/utils/features-extract-central-frame.py
index 760a80e..e9a13a3 100644
--- a/recipes/timit_v2/utils/features-extract-central-frame.py
+++ b/recipes/timit_v2/utils/features-extract-central-frame.py
@@ -19,7 +19,7 @@ def get_cf(ali, pdf_mapping):
         if label != previous_lab:
             cf = int(start + .5 * (i - start))
             cfs.append((previous_lab, cf))
-            start = i + 1
+            start = i
             previous_lab = label
     cf = int(start + .5 * (i - start))
     cfs.append((previous_lab, cf))
-- 
2.43.0


From 0bab488abeab8f252f22d66beb982dbbf42b641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:20 +0000
Subject: [PATCH 54/58] fix: the recipe extracted filter bank features with the
 wrong sampling rate

---
 recipes/timit_v2/utils/features-extract-parallel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/recipes/timit_v2/utils/features-extract-parallel.py b/recipes/timit_v2/utils/features-extract-parallel.py
index 826b0c5..f38507c 100644
--- a/recipes/timit_v2/utils/features-extract-parallel.py
+++ b/recipes/timit_v2/utils/features-extract-parallel.py
@@ -101,6 +101,7 @@ def main():
         # Filter bank.
         if feaconf['apply_fbank']:
             fbank = beer.features.create_fbank(feaconf['nfilters'], fft_len,
+                                               srate=feaconf['srate'],
                                                lowfreq=feaconf['cutoff_lfreq'],
                                                highfreq=feaconf['cutoff_hfreq'])
             features = features @ fbank.T
-- 
2.43.0


From d3a71f8c13f33d83b71222c2f033c44b8d14d684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:39 +0000
Subject: [PATCH 55/58] fix: members of mixtures with shared components could
 not be taken

---
 beer/models/modelset.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/beer/models/modelset.py b/beer/models/modelset.py
index 355ce18..9bf2f04 100644
--- a/beer/models/modelset.py
+++ b/beer/models/modelset.py
@@ -205,7 +205,17 @@ class RepeatedModelSet(ModelSet):
     ####################################################################
 
     def __getitem__(self, key):
-        return self.modelset[key % len(self.modelset)]
+        size = len(self.modelset)
+        idxs = range(len(self))[key]
+        if not isinstance(key, slice):
+            return self.modelset[idxs % size]
+        start, stop, step = key.indices(len(self))
+        if step == 1 and start // size == (stop - 1) // size:
+            # Part of one copy of the model set.
+            return self.modelset[start % size:(stop - 1) % size + 1]
+        if step == 1 and start % size == 0 and len(idxs) % size == 0:
+            return self.__class__(self.modelset, len(idxs) // size)
+        raise IndexError(f'Unsupported index: {key}')
 
     def __len__(self):
         return len(self.modelset) * self.repeat
-- 
2.43.0


From db032d7afd6f93468873c2652b0e509fb9efde68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:49 +0000
Subject: [PATCH 56/58] fix: replacing a looping state by a graph looping on
 itself lost one of the arcs

---
 beer/graph.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/beer/graph.py b/beer/graph.py
index 34e3af2..d9aa82a 100644
--- a/beer/graph.py
+++ b/beer/graph.py
@@ -148,9 +148,16 @@ class Graph:
                 end = new_states[graph.start_state]
             new_arcs.append((start, end, arc.weight))
 
-        # Add the new arcs.
+        # Add the new arcs. There is only one arc between 2 states, if
+        # it exists already (a unit that loops on itself), it takes the
+        # weight of both.
         for start, end, weight in new_arcs:
-            self.add_arc(start, end, weight)
+            for arc in self.arcs(start):
+                if arc.end == end:
+                    arc.weight = arc.weight + weight
+                    break
+            else:
+                self.add_arc(start, end, weight)
 
         # Remove the old arcs and the replaced state.
         for arc in to_delete:
-- 
2.43.0


From 1be4fb72d7cd9d1f4f2e180c29ded0eb96832afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:32 +0000
Subject: [PATCH 57/58] fix: probabilities of a categorical distribution with
 large natural parameters were nan

---
 beer/dists/dirichlet.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/beer/dists/dirichlet.py b/beer/dists/dirichlet.py
index 8350099..8c8e55a 100644
--- a/beer/dists/dirichlet.py
+++ b/beer/dists/dirichlet.py
@@ -33,9 +33,8 @@ class CategoricalLikelihood(ConjugateLikelihood):
             pdfvec = pdfvec.view(1, -1)
         retval = torch.zeros_like(pdfvec, requires_grad=False)
         lnorm = CategoricalLikelihood.log_norm(pdfvec[:, :-1])
-        remainder = (-lnorm).exp()
-        retval[:, :-1] = pdfvec[:, :-1].exp() * remainder[:, None]
-        retval[:, -1] = remainder
+        retval[:, :-1] = (pdfvec[:, :-1] - lnorm[:, None]).exp()
+        retval[:, -1] = (-lnorm).exp()
         if len(size) == 1:
             return retval.view(-1)
         return retval.view(-1, self.dim)
-- 
2.43.0


From cfeca708dcd105dde4fc30811cf23117c0ee2545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:53 +0000
Subject: [PATCH 58/58] fix: the alignment script of the TIMIT recipe could not
 load alignment graphs

---
 recipes/timit_v2/utils/hmm-align.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/timit_v2/utils/hmm-align.py b/recipes/timit_v2/utils/hmm-align.py
index 350da41..a803d2c 100644
--- a/recipes/timit_v2/utils/hmm-align.py
+++ b/recipes/timit_v2/utils/hmm-align.py
@@ -31,7 +31,7 @@ def main():
 
     ali_graphs = None
     if args.ali_graphs:
-        ali_graphs = np.load(args.ali_graphs)
+        ali_graphs = np.load(args.ali_graphs, allow_pickle=True)
 
     with open(args.hmm, 'rb') as fh:
         model = pickle.load(fh)
-- 
2.43.0

