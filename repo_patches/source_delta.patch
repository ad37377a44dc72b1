From 4474f1b17fcda98f1b747668e42cedfd1a3a22a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 01/55] fix: restore caches and the random state when sampling
 fails

sampling_context left the evidence caches enabled and the seeded random state
in place when the forward pass or the sampling pass raised, so a failed call
changed the results of every later call.
---
 simple_einet/conv_pc.py        | 37 +++++++++++++++++-----------------
 simple_einet/sampling_utils.py | 37 +++++++++++++++++-----------------
 2 files changed, 38 insertions(+), 36 deletions(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 6ce7473..863d29f 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -115,29 +115,30 @@ def sampling_context(
 
         torch.manual_seed(seed)
 
-    # Run forward pass in given context
-    with context():
-        if evidence is not None:
-            # Enter
-            for module in model.modules():
-                if hasattr(module, "_enable_input_cache"):
-                    module._enable_input_cache()
-
-            _ = model.log_likelihood(x=evidence)
-
-        # Run in context (nothing needs to be yielded)
-        yield
-
-        # Exit
+    try:
+        # Run forward pass in given context
+        with context():
+            if evidence is not None:
+                # Enter
+                for module in model.modules():
+                    if hasattr(module, "_enable_input_cache"):
+                        module._enable_input_cache()
+
+                _ = model.log_likelihood(x=evidence)
+
+            # Run in context (nothing needs to be yielded)
+            yield
+    finally:
+        # Exit: clear caches and restore the random state, even if an error occurred inside the context
         if evidence is not None:
             for module in model.modules():
                 if hasattr(module, "_enable_input_cache"):
                     module._disable_input_cache()
 
-    if seed is not None:
-        torch.set_rng_state(cpu_rng_state)
-        if cuda_rng_state is not None:
-            torch.cuda.set_rng_state(cuda_rng_state)
+        if seed is not None:
+            torch.set_rng_state(cpu_rng_state)
+            if cuda_rng_state is not None:
+                torch.cuda.set_rng_state(cuda_rng_state)
 
 
 class SumConv(nn.Module):
diff --git a/simple_einet/sampling_utils.py b/simple_einet/sampling_utils.py
index 852731e..5206362 100644
--- a/simple_einet/sampling_utils.py
+++ b/simple_einet/sampling_utils.py
@@ -45,29 +45,30 @@ def sampling_context(
 
         torch.manual_seed(seed)
 
-    # Run forward pass in given context
-    with context():
-        if evidence is not None:
-            # Enter
-            for module in spn.modules():
-                if hasattr(module, "_enable_input_cache"):
-                    module._enable_input_cache()
-
-            _ = spn(evidence, marginalized_scopes)
-
-        # Run in context (nothing needs to be yielded)
-        yield
-
-        # Exit
+    try:
+        # Run forward pass in given context
+        with context():
+            if evidence is not None:
+                # Enter
+                for module in spn.modules():
+                    if hasattr(module, "_enable_input_cache"):
+                        module._enable_input_cache()
+
+                _ = spn(evidence, marginalized_scopes)
+
+            # Run in context (nothing needs to be yielded)
+            yield
+    finally:
+        # Exit: clear caches and restore the random state, even if an error occurred inside the context
         if evidence is not None:
             for module in spn.modules():
                 if hasattr(module, "_enable_input_cache"):
                     module._disable_input_cache()
 
-    if seed is not None:
-        torch.set_rng_state(cpu_rng_state)
-        if cuda_rng_state is not None:
-            torch.cuda.set_rng_state(cuda_rng_state)
+        if seed is not None:
+            torch.set_rng_state(cpu_rng_state)
+            if cuda_rng_state is not None:
+                torch.cuda.set_rng_state(cuda_rng_state)
 
 
 @dataclass
-- 
2.43.0


From 60826842ee707d447df01b881ec63928936ef39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:08 +0000
Subject: [PATCH 02/55] fix: give the class sampling root its uniform prior

The uniform class prior was stored in an attribute the layer never reads, so
unconditional samples of a model with several classes followed random class
weights instead of the prior that posterior() uses.
---
 simple_einet/einet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index b26470e..52d2f7c 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -332,7 +332,7 @@ class Einet(nn.Module):
                 num_sums_out=1,
                 num_repetitions=1,
             )
-            self._class_sampling_root.weights = nn.Parameter(
+            self._class_sampling_root.logits = nn.Parameter(
                 torch.log(
                     torch.ones(size=(1, self.config.num_classes, 1, 1)) * torch.tensor(1 / self.config.num_classes)
                 ),
@@ -465,7 +465,7 @@ class Einet(nn.Module):
                 num_sums_out=1,
                 num_repetitions=1,
             )
-            self._class_sampling_root.weights = nn.Parameter(
+            self._class_sampling_root.logits = nn.Parameter(
                 torch.log(
                     torch.ones(size=(1, self.config.num_classes, 1, 1)) * torch.tensor(1 / self.config.num_classes)
                 ),
-- 
2.43.0


From 107f18f102696cf75074080cd6f638168da3341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 03/55] fix: condition the class choice on the evidence

Sampling and MPE given evidence drew the class from its prior, although the
evidence determines how likely each class is, so completions of a model with
several classes did not follow p(x_missing | evidence).
---
 simple_einet/einet.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 52d2f7c..61b6561 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -201,6 +201,10 @@ class Einet(nn.Module):
         # Final shape check
         assert x.shape == (batch_size, self.config.num_classes)
 
+        # If evidence is being cached for conditional sampling, let the class sampling root observe p(X | C) as well
+        if self.config.num_classes > 1 and self._class_sampling_root._is_input_cache_enabled:
+            self._class_sampling_root(x.view(batch_size, 1, self.config.num_classes, 1))
+
         return x
 
     def _forward_layers(self, x):
-- 
2.43.0


From 9bf3497608b7f26057010f59eb9b05c2e7f43637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 04/55] fix: sample one row per entry of a class index list

The sampling context kept num_samples=1, so every list of several class indices
failed; the one-hot encoding of class indices for differentiable sampling had
its dimensions swapped and did not fit the layers below.
---
 simple_einet/einet.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 61b6561..276542c 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -588,6 +588,9 @@ class Einet(nn.Module):
         if evidence is not None:
             # Set n to the number of samples in the evidence
             num_samples = evidence.shape[0]
+        elif isinstance(class_index, list):
+            # One sample for each given class index
+            num_samples = len(class_index)
         elif num_samples is None:
             num_samples = 1
 
@@ -627,10 +630,9 @@ class Einet(nn.Module):
                             # TODO: Test this
                             # One hot encode
                             indices = torch.zeros(
-                                size=(num_samples, self.config.num_classes, 1), dtype=torch.float, device=self.__device
-                            ).scatter_(1, indices.unsqueeze(-1), 1)
-                            indices.requireds_grad_(True)  # Enable gradients
-                        num_samples = indices.shape[0]
+                                size=(num_samples, 1, self.config.num_classes), dtype=torch.float, device=self.__device
+                            ).scatter_(2, indices.unsqueeze(-1), 1)
+                            indices.requires_grad_(True)  # Enable gradients
                     else:
                         indices = torch.empty(size=(num_samples, 1), dtype=torch.long, device=self.__device)
                         indices.fill_(class_index)
@@ -638,8 +640,8 @@ class Einet(nn.Module):
                             # TODO: Test this
                             # One hot encode
                             indices = torch.zeros(
-                                size=(num_samples, self.config.num_classes, 1), dtype=torch.float, device=self.__device
-                            ).scatter_(1, indices.unsqueeze(-1), 1)
+                                size=(num_samples, 1, self.config.num_classes), dtype=torch.float, device=self.__device
+                            ).scatter_(2, indices.unsqueeze(-1), 1)
                             indices.requires_grad_(True)  # Enable gradients
 
                     ctx.indices_out = indices
-- 
2.43.0


From bc702b655dfeff238bfd64e99c9f17d69a19cabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 05/55] fix: let Bernoulli leaves be sampled

AbstractLeaf.sample passes the sampling context to _get_base_distribution,
which Bernoulli did not accept, so models with Bernoulli leaves could not be
sampled at all.
---
 simple_einet/layers/distributions/bernoulli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/bernoulli.py b/simple_einet/layers/distributions/bernoulli.py
index 7b52e05..0872f24 100644
--- a/simple_einet/layers/distributions/bernoulli.py
+++ b/simple_einet/layers/distributions/bernoulli.py
@@ -3,6 +3,7 @@ from torch import distributions as dist
 from torch import nn
 
 from simple_einet.layers.distributions.abstract_leaf import AbstractLeaf
+from simple_einet.sampling_utils import SamplingContext
 
 
 class Bernoulli(AbstractLeaf):
@@ -26,6 +27,6 @@ class Bernoulli(AbstractLeaf):
         # Create bernoulli parameters
         self.probs = nn.Parameter(torch.randn(1, num_channels, num_features, num_leaves, num_repetitions))
 
-    def _get_base_distribution(self):
+    def _get_base_distribution(self, ctx: SamplingContext = None):
         # Use sigmoid to ensure, that probs are in valid range
         return dist.Bernoulli(probs=torch.sigmoid(self.probs))
-- 
2.43.0


From fd553c678b5c97151306b3e636e37db1e9d55229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 06/55] fix: resample dropout masks that drop every child of a
 sum node

The resampling of masks that leave a sum node without children indexed with a
mask of the wrong shape (or, in SumLayer, looked along the repetitions), so
training raised an IndexError or dropout never took effect. LinsumLayer2 also
masked the layer's outputs, which made class log-likelihoods -inf.
---
 simple_einet/layers/linsum.py | 26 +++++++++++++-------------
 simple_einet/layers/sum.py    |  4 ++--
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/simple_einet/layers/linsum.py b/simple_einet/layers/linsum.py
index ecd47ac..1996a35 100644
--- a/simple_einet/layers/linsum.py
+++ b/simple_einet/layers/linsum.py
@@ -90,11 +90,11 @@ class LinsumLayer(AbstractSumLayer):
         # Apply dropout: Set random sum node children to 0 (-inf in log domain)
         if self.dropout > 0.0 and self.training:
             dropout_indices = self._bernoulli_dist.sample(prod_output.shape)
-            invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
+            invalid_index = (dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]).expand_as(dropout_indices)
             while invalid_index.any():
                 # Resample only invalid indices
                 dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
-                invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
+                invalid_index = (dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]).expand_as(dropout_indices)
             dropout_indices = torch.log(1 - dropout_indices)
             prod_output = prod_output + dropout_indices
 
@@ -272,6 +272,17 @@ class LinsumLayer2(AbstractSumLayer):
         if self._is_input_cache_enabled:
             self._input_cache["x"] = x
 
+        # Apply dropout: Set random sum node children to 0 (-inf in log domain)
+        if self.dropout > 0.0 and self.training:
+            dropout_indices = self._bernoulli_dist.sample(x.shape)
+            invalid_index = (dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]).expand_as(dropout_indices)
+            while invalid_index.any():
+                # Resample only invalid indices
+                dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
+                invalid_index = (dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]).expand_as(dropout_indices)
+            dropout_indices = torch.log(1 - dropout_indices)
+            x = x + dropout_indices
+
         # Get log weights
         log_weights = logits_to_log_weights(self.logits, dim=1).unsqueeze(0)
         x = x.unsqueeze(3)
@@ -287,17 +298,6 @@ class LinsumLayer2(AbstractSumLayer):
 
         prod_output = left + right  # N x D/2 x Sout x 1 x R
 
-        # Apply dropout: Set random sum node children to 0 (-inf in log domain)
-        if self.dropout > 0.0 and self.training:
-            dropout_indices = self._bernoulli_dist.sample(prod_output.shape)
-            invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
-            while invalid_index.any():
-                # Resample only invalid indices
-                dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
-                invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
-            dropout_indices = torch.log(1 - dropout_indices)
-            prod_output = prod_output + dropout_indices
-
         return prod_output
 
     def _sample_from_weights(self, ctx, log_weights):
diff --git a/simple_einet/layers/sum.py b/simple_einet/layers/sum.py
index 4080716..417dcdb 100644
--- a/simple_einet/layers/sum.py
+++ b/simple_einet/layers/sum.py
@@ -68,11 +68,11 @@ class SumLayer(AbstractSumLayer):
         # Apply dropout: Set random sum node children to 0 (-inf in log domain)
         if self.dropout > 0.0 and self.training:
             dropout_indices = self._bernoulli_dist.sample(x.shape)
-            invalid_index = dropout_indices.sum(3) == dropout_indices.shape[3]
+            invalid_index = (dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]).expand_as(dropout_indices)
             while invalid_index.any():
                 # Resample only invalid indices
                 dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
-                invalid_index = dropout_indices.sum(3) == dropout_indices.shape[3]
+                invalid_index = (dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]).expand_as(dropout_indices)
             dropout_indices = torch.log(1 - dropout_indices)
             x = x + dropout_indices
 
-- 
2.43.0


From d5439d738ee86c15d1ee133561a4fb0b7f5fefb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 07/55] fix: pass the dropout rate on to einsum layers

EinsumLayer accepted a dropout rate but did not hand it to its base class, so
the configured dropout was never applied in models built from einsum layers.
---
 simple_einet/layers/einsum.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/simple_einet/layers/einsum.py b/simple_einet/layers/einsum.py
index bb6e6a6..4e4a227 100644
--- a/simple_einet/layers/einsum.py
+++ b/simple_einet/layers/einsum.py
@@ -64,6 +64,7 @@ class EinsumLayer(AbstractSumLayer):
             num_repetitions=num_repetitions,
             num_sums_in=num_sums_in,
             num_sums_out=num_sums_out,
+            dropout=dropout,
         )
 
         # Create index map from flattened to coordinates (only needed in sampling)
@@ -115,8 +116,14 @@ class EinsumLayer(AbstractSumLayer):
 
         # Apply dropout: Set random sum node children to 0 (-inf in log domain)
         if self.dropout > 0.0 and self.training:
-            dropout_indices = self._bernoulli_dist.sample(x.shape).bool()
-            x[dropout_indices] = np.NINF
+            dropout_indices = self._bernoulli_dist.sample(x.shape)
+            invalid_index = (dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]).expand_as(dropout_indices)
+            while invalid_index.any():
+                # Resample only invalid indices
+                dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
+                invalid_index = (dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]).expand_as(dropout_indices)
+            dropout_indices = torch.log(1 - dropout_indices)
+            x = x + dropout_indices
 
         # Dimensions
         N, D, C, R = x.size()
-- 
2.43.0


From 167f89ca20243e99e836e81ebe1d4c5ebf68aa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:18 +0000
Subject: [PATCH 08/55] fix: keep the mode of a binomial leaf inside its
 support

For a success probability of 1 (reached by float rounding of large logits) the
mode formula gives total_count + 1, so MPE returned impossible values.
---
 simple_einet/layers/distributions/abstract_leaf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/abstract_leaf.py b/simple_einet/layers/distributions/abstract_leaf.py
index 6b1edc4..23fe48f 100644
--- a/simple_einet/layers/distributions/abstract_leaf.py
+++ b/simple_einet/layers/distributions/abstract_leaf.py
@@ -77,7 +77,7 @@ def dist_mode(distribution: dist.Distribution, ctx: SamplingContext = None) -> t
     elif isinstance(distribution, dist.Binomial) or isinstance(distribution, DifferentiableBinomial):
         mode = distribution.probs.clone()
         total_count = distribution.total_count
-        mode = torch.floor(mode * (total_count + 1))
+        mode = torch.floor(mode * (total_count + 1)).clamp(max=total_count)
         if mode.shape[0] == 1:
             return mode.repeat(ctx.num_samples, 1, 1, 1, 1)
         else:
-- 
2.43.0


From 968109220853bafaf39c5ae67cbd4e5dbe6d8e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 09/55] fix: unfold leaf groups in the order the forward pass
 folds them

FactorizedLeafSimple.forward multiplies consecutive entries into one group,
but sampling assigned the groups' indices cyclically, so samples and MPE of
models with several features per group used the wrong leaf components.
---
 simple_einet/layers/factorized_leaf.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index bfffc05..0851d4c 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -333,8 +333,8 @@ class FactorizedLeafSimple(AbstractLayer):
         if ctx.is_differentiable:
 
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.cardinality, -1, -1)
+            indices_out = indices_out.unsqueeze(2)
+            indices_out = indices_out.expand(-1, -1, self.cardinality, -1)
             indices_out = indices_out.reshape(
                 indices_out.shape[0], self.num_features + self.num_dummy_nodes, indices_out.shape[-1]
             )
@@ -350,8 +350,8 @@ class FactorizedLeafSimple(AbstractLayer):
             samples = index_one_hot(samples, index=indices_out, dim=-1)
         else:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1).unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.base_leaf.num_channels, self.cardinality, -1)
+            indices_out = indices_out.unsqueeze(1).unsqueeze(-1)
+            indices_out = indices_out.expand(-1, self.base_leaf.num_channels, -1, self.cardinality)
             indices_out = indices_out.reshape(indices_out.shape[0], self.base_leaf.num_channels, self.num_features + self.num_dummy_nodes)
 
             # Invert permutation
@@ -373,8 +373,8 @@ class FactorizedLeafSimple(AbstractLayer):
         num_params = params.shape[-1]  # Number of parameters, e.g. 2 for Normal (mu and sigma)
         if ctx.is_differentiable:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.cardinality, -1, -1)
+            indices_out = indices_out.unsqueeze(2)
+            indices_out = indices_out.expand(-1, -1, self.cardinality, -1)
             indices_out = indices_out.reshape(
                 indices_out.shape[0], self.num_features + self.num_dummy_nodes, indices_out.shape[-1]
             )
@@ -392,8 +392,8 @@ class FactorizedLeafSimple(AbstractLayer):
             params = index_one_hot(params, index=indices_out, dim=-2)
         else:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1).unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.base_leaf.num_channels, self.cardinality, -1)
+            indices_out = indices_out.unsqueeze(1).unsqueeze(-1)
+            indices_out = indices_out.expand(-1, self.base_leaf.num_channels, -1, self.cardinality)
             indices_out = indices_out.reshape(indices_out.shape[0], self.base_leaf.num_channels, self.num_features + self.num_dummy_nodes)
 
             # Invert permutation
-- 
2.43.0


From b8870ed240e71ac901da975d2cb6b38cc3e4b73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 10/55] fix: use the forward pass's feature order when sampling
 unfactorized leaves

With as many output features as input features, FactorizedLeaf.forward skips
the random scopes while sampling still applied them, so samples and MPE used
the leaf components of other features.
---
 simple_einet/layers/factorized_leaf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index 0851d4c..38f7819 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -64,6 +64,10 @@ class FactorizedLeaf(AbstractLayer):
                     high = self.num_features
                 scopes[idxs[low:high], o, r] = 1
 
+        # Without any factorization, forward() passes the features on as they are
+        if self.num_features == self.num_features_out:
+            scopes = torch.eye(num_features).unsqueeze(-1).repeat(1, 1, num_repetitions)
+
         self.register_buffer("scopes", scopes)
 
     def forward(self, x: torch.Tensor, marginalized_scopes: List[int]):
-- 
2.43.0


From c8bea745efc1a2910bd1763c8cf64fcec1adbb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 11/55] fix: select multivariate leaf components per feature
 group when sampling

A multivariate leaf covers several consecutive features, but the group's leaf
index was tiled over the features (or applied to the first ones only), so
samples mixed the components of different groups or lacked features.
---
 simple_einet/layers/factorized_leaf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index 38f7819..b830335 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -146,6 +146,7 @@ class FactorizedLeaf(AbstractLayer):
 
             indices_in = index_one_hot(indices_out.unsqueeze(1), index=scopes.unsqueeze(-1), dim=2)
             indices_in = indices_in.unsqueeze(1)  # make space for channel dim
+            indices_in = indices_in.repeat_interleave(self.base_leaf.cardinality, dim=2)
             samples = index_one_hot(samples, index=indices_in, dim=-1)
         else:
             # Select the correct repetitions
@@ -156,7 +157,7 @@ class FactorizedLeaf(AbstractLayer):
             indices_in_gather = indices_in_gather.view(ctx.num_samples, 1, -1, 1)
 
             indices_in_gather = indices_in_gather.expand(-1, self.base_leaf.num_channels, -1, -1)
-            indices_in_gather = indices_in_gather.repeat(1, 1, self.base_leaf.cardinality, 1)
+            indices_in_gather = indices_in_gather.repeat_interleave(self.base_leaf.cardinality, dim=2)
             samples = samples.gather(dim=-1, index=indices_in_gather)
             samples.squeeze_(-1)  # Remove num_leaves dimension
         return samples
@@ -351,6 +352,7 @@ class FactorizedLeafSimple(AbstractLayer):
                 indices_out = indices_out[:, : -self.num_dummy_nodes]
 
             indices_out = indices_out.unsqueeze(1)  # make space for channel dim
+            indices_out = indices_out.repeat_interleave(self.base_leaf.cardinality, dim=2)
             samples = index_one_hot(samples, index=indices_out, dim=-1)
         else:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
@@ -366,6 +368,7 @@ class FactorizedLeafSimple(AbstractLayer):
                 indices_out = indices_out[:, :, : -self.num_dummy_nodes]
 
             indices_out = indices_out.unsqueeze(-1)
+            indices_out = indices_out.repeat_interleave(self.base_leaf.cardinality, dim=2)
             samples = samples.gather(index=indices_out, dim=-1)
             samples = samples.squeeze(-1)
         return samples
-- 
2.43.0


From 6036f6630936d1633c40694b0c267e096d542461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:31 +0000
Subject: [PATCH 12/55] fix: sample domain values from discrete piecewise
 linear leaves

Sampling returned the index of the drawn bin, which is a value of the domain
only when the domain starts at zero.
---
 simple_einet/layers/distributions/piecewise_linear.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index a7f54eb..513ef84 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -319,7 +319,9 @@ class PiecewiseLinearDist:
                             # Sample from a categorical distribution
                             ys_i_wo_tails = ys_i[1:-1]  # Cut off the tail breaks
                             dist = torch.distributions.Categorical(probs=ys_i_wo_tails)
-                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = dist.sample(sample_shape)
+                            # Map the sampled bin back to the value it stands for
+                            values_i = xs_i[1:-1]
+                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = values_i[dist.sample(sample_shape)]
                         elif self.domains[i_feature].data_type == DataType.CONTINUOUS:
                             # Compute the CDF for this piecewise function
                             cdf = self._compute_cdf(xs_i, ys_i)
-- 
2.43.0


From a88ebbeaae87496d94806c132a9f72c8787e5856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 13/55] fix: only replace piecewise linear leaves once
 initialization succeeded

initialize() overwrote the domains and mixture weights before the histograms
were built, so a failed re-initialization left old pieces with new domains; an
empty last cluster made it fail.
---
 .../layers/distributions/piecewise_linear.py  | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index 513ef84..72a0f1b 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -74,13 +74,11 @@ class PiecewiseLinear(AbstractLeaf):
         assert data.shape[1] == self.num_channels
         assert data.shape[2] == self.num_features
 
-        self.domains = domains
-
         # Parameters
         xs = []  # [R, L, F, C]
         ys = []
 
-        self.mixture_weights = torch.zeros(self.num_repetitions, self.num_leaves, device=data.device)
+        mixture_weights = torch.zeros(self.num_repetitions, self.num_leaves, device=data.device)
 
         for i_repetition in tqdm.tqdm(range(self.num_repetitions), desc="Initializing PiecewiseLinear Leaf Layer"):
             # Repeat this for every repetition
@@ -92,8 +90,8 @@ class PiecewiseLinear(AbstractLeaf):
             kmeans.fit(data.view(data.shape[0], -1).float())
 
             predictions = kmeans.predict(data.view(data.shape[0], -1).float())
-            counts = torch.bincount(predictions)
-            self.mixture_weights[i_repetition] = counts / counts.sum()
+            counts = torch.bincount(predictions, minlength=self.num_leaves)
+            mixture_weights[i_repetition] = counts / counts.sum()
 
             # Get cluster assigments for each datapoint
             cluster_idxs = kmeans.max_sim(a=data.view(data.shape[0], -1).float(), b=kmeans.centroids)[1]
@@ -115,9 +113,9 @@ class PiecewiseLinear(AbstractLeaf):
                         data_subset = cluster_data[:, i_channel, i_feature].view(cluster_data.shape[0], 1).float()
 
                         # Construct histogram
-                        if self.domains[i_feature].data_type == DataType.DISCRETE:
+                        if domains[i_feature].data_type == DataType.DISCRETE:
                             # Edges are the discrete values
-                            mids = torch.tensor(self.domains[i_feature].values, device=data.device).float()
+                            mids = torch.tensor(domains[i_feature].values, device=data.device).float()
 
                             # Add a break at the end
                             breaks = torch.cat([mids, torch.tensor([mids[-1] + 1], device=mids.device)])
@@ -131,7 +129,7 @@ class PiecewiseLinear(AbstractLeaf):
                                     data.device
                                 )
 
-                        elif self.domains[i_feature].data_type == DataType.CONTINUOUS:
+                        elif domains[i_feature].data_type == DataType.CONTINUOUS:
                             # Find histogram bins using numpys "auto" logic
                             bins, _ = _get_bin_edges_torch(data_subset)
 
@@ -154,11 +152,11 @@ class PiecewiseLinear(AbstractLeaf):
                         assert len(densities) + 1 == len(breaks)
 
                         # Add tail breaks to start and end
-                        if self.domains[i_feature].data_type == DataType.DISCRETE:
+                        if domains[i_feature].data_type == DataType.DISCRETE:
                             tail_width = 1
                             x = [b for b in breaks[:-1]]
                             x = [x[0] - tail_width] + x + [x[-1] + tail_width]
-                        elif self.domains[i_feature].data_type == DataType.CONTINUOUS:
+                        elif domains[i_feature].data_type == DataType.CONTINUOUS:
                             EPS = 1e-8
                             x = (
                                 [breaks[0] - EPS]
@@ -207,6 +205,8 @@ class PiecewiseLinear(AbstractLeaf):
         assert len(xs[0][0][0]) == len(ys[0][0][0]) == self.num_channels
 
         # Store
+        self.domains = domains
+        self.mixture_weights = mixture_weights
         self.xs = xs
         self.ys = ys
         self.is_initialized = True
-- 
2.43.0


From 64521581212723b6180d37019e2918daaf847f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 14/55] fix: evaluate the evidence of a ConvPc by calling the
 model

The sampling context called log_likelihood(), which ConvPc does not have, so
conditional sampling always failed.
---
 simple_einet/conv_pc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 863d29f..57381c1 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -124,7 +124,7 @@ def sampling_context(
                     if hasattr(module, "_enable_input_cache"):
                         module._enable_input_cache()
 
-                _ = model.log_likelihood(x=evidence)
+                _ = model(evidence)
 
             # Run in context (nothing needs to be yielded)
             yield
-- 
2.43.0


From 74cbed67b3ac639c06c8e8a59d6087f70bc20cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 15/55] fix: marginalize in every component of a mixture

Mixture.forward used the marginalized scopes to choose the component but did
not pass them on, so the returned density still depended on those features.
---
 simple_einet/mixture.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index b8bab3a..423e84a 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -96,7 +96,10 @@ class Mixture(nn.Module):
         data_idxs_all = []
         for cluster_idx, data_list in separated_data.items():
             data_tensor = torch.stack(data_list, dim=0)
-            lls = self.models[cluster_idx](data_tensor)
+            if marginalized_scope is None:
+                lls = self.models[cluster_idx](data_tensor)
+            else:
+                lls = self.models[cluster_idx](data_tensor, marginalized_scope)
 
             data_idxs = separated_idxs[cluster_idx]
             for data_idx, ll in zip(data_idxs, lls):
-- 
2.43.0


From 0ad2aa95b9dd183fa452f59c4f50976cdf91ed29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 16/55] fix: let the seed of Mixture.sample decide the whole
 sample

The components were chosen with the global random state, the evidence path
ignored the seed, and every component restarted from the same seed, so equal
seeds gave different samples.
---
 simple_einet/mixture.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index 423e84a..a379a64 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -130,6 +130,23 @@ class Mixture(nn.Module):
         mpe_at_leaves: bool = False,
     ):
         assert num_samples is None or num_samples_per_cluster is None
+
+        # Let the seed cover the choice of the components as well, without affecting the global random state
+        if seed is not None:
+            with torch.random.fork_rng():
+                torch.manual_seed(seed)
+                return self.sample(
+                    num_samples=num_samples,
+                    num_samples_per_cluster=num_samples_per_cluster,
+                    class_index=class_index,
+                    evidence=evidence,
+                    is_mpe=is_mpe,
+                    temperature_leaves=temperature_leaves,
+                    temperature_sums=temperature_sums,
+                    marginalized_scopes=marginalized_scopes,
+                    mpe_at_leaves=mpe_at_leaves,
+                )
+
         if num_samples is None and num_samples_per_cluster is not None:
             num_samples = num_samples_per_cluster * self.n_components
 
-- 
2.43.0


From ac7784cf027c8418d2020e03ea1c97422ed853be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 17/55] fix: respect num_samples and mpe_at_leaves in
 Mixture.sample

MPE without evidence returned a single row for any num_samples, and
mpe_at_leaves was dropped when evidence was given.
---
 simple_einet/mixture.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index a379a64..c24bd33 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -159,7 +159,7 @@ class Mixture(nn.Module):
 
         if is_mpe:
             # Take cluster idx with largest weights
-            cluster_idxs = [self.mixture_weights.argmax().item()]
+            cluster_idxs = [self.mixture_weights.argmax().item()] * num_samples
         else:
             if num_samples_per_cluster is not None:
                 cluster_idxs = torch.arange(self.n_components).repeat_interleave(num_samples_per_cluster).tolist()
@@ -215,6 +215,7 @@ class Mixture(nn.Module):
                     temperature_leaves=temperature_leaves,
                     temperature_sums=temperature_sums,
                     marginalized_scopes=marginalized_scopes,
+                    mpe_at_leaves=mpe_at_leaves,
                 )
 
                 evidence_idxs = separated_idxs[cluster_idx]
-- 
2.43.0


From 3ef11443622dcf20e33a42e342b9beefee9df7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 18/55] fix: keep a weight for every component when clusters
 are empty

bincount stops at the largest cluster seen, so mixture_weights lost entries
(and no longer fitted checkpoints) when the last clusters were empty.
---
 simple_einet/mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index c24bd33..c55f20b 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -57,7 +57,7 @@ class Mixture(nn.Module):
 
         data = data.float()  # input has to be [n, d]
         predictions = self._kmeans.fit_predict(data.view(data.shape[0], -1))
-        counts = torch.bincount(predictions)
+        counts = torch.bincount(predictions, minlength=self.n_components)
         self.mixture_weights.data = counts / counts.sum()
 
         self.centroids.data = self._kmeans.centroids
-- 
2.43.0


From 3c5dfa6e424f88cb7a6ac343450360eaed5c8d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 19/55] fix: do not scale the caller's batch in place

preprocess() multiplied the batch it was given, so evaluating the same tensors
again (a retried step, data held in memory) saw values scaled twice.
---
 models_pl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models_pl.py b/models_pl.py
index 57fcfeb..528209c 100644
--- a/models_pl.py
+++ b/models_pl.py
@@ -120,7 +120,7 @@ class LitModel(pl.LightningModule, ABC):
     def preprocess(self, data: torch.Tensor):
         """Preprocess data before passing it to the model."""
         if self.cfg.dist == Dist.BINOMIAL:
-            data *= 255.0
+            data = data * 255.0
 
         return data
 
-- 
2.43.0


From 9c2abc1d8dfab98ee5b04e6f92563f9b83d587ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 20/55] fix: generate a random seed when none is given

seed_all_rng(None) called now() on the datetime module and always failed.
---
 exp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exp_utils.py b/exp_utils.py
index 7bb3432..8c2052a 100644
--- a/exp_utils.py
+++ b/exp_utils.py
@@ -229,7 +229,7 @@ def seed_all_rng(seed=None):
         seed (int): if None, will use a strong random seed.
     """
     if seed is None:
-        seed = os.getpid() + int(datetime.now().strftime("%S%f")) + int.from_bytes(os.urandom(2), "big")
+        seed = os.getpid() + int(datetime.datetime.now().strftime("%S%f")) + int.from_bytes(os.urandom(2), "big")
         logger.info("Using a generated random seed {}".format(seed))
     np.random.seed(seed)
     torch.manual_seed(seed)
-- 
2.43.0


From 0be075d394fee6e5761569f287d096ebfad2c730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:42 +0000
Subject: [PATCH 21/55] fix: never leave a partial DEBD download behind

A failed or interrupted clone or checkout left the target directory in place;
every later call took it for the complete dataset. The download also changed
the working directory of the process, permanently if a step failed.
---
 simple_einet/data.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index eac31dd..062ecdf 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -4,7 +4,9 @@ from simple_einet.layers.distributions.piecewise_linear import PiecewiseLinear
 import imageio.v3 as imageio
 import itertools
 import os
+import shutil
 import subprocess
+import tempfile
 from dataclasses import dataclass
 from enum import Enum
 from typing import Optional, Tuple
@@ -242,12 +244,23 @@ def maybe_download_debd(data_dir: str):
     debd_dir = os.path.join(data_dir, "debd")
     if os.path.isdir(debd_dir):
         return
-    subprocess.run(["git", "clone", "https://github.com/arranger1044/DEBD", debd_dir])
-    wd = os.getcwd()
-    os.chdir(debd_dir)
-    subprocess.run(["git", "checkout", "80a4906dcf3b3463370f904efa42c21e8295e85c"])
-    subprocess.run(["rm", "-rf", ".git"])
-    os.chdir(wd)
+
+    # Prepare everything in a temporary directory, such that debd_dir only exists once it is complete
+    os.makedirs(data_dir, exist_ok=True)
+    tmp_dir = tempfile.mkdtemp(prefix="debd-download-", dir=data_dir)
+    clone_dir = os.path.join(tmp_dir, "debd")
+    try:
+        subprocess.run(["git", "clone", "https://github.com/arranger1044/DEBD", clone_dir], check=True)
+        subprocess.run(["git", "checkout", "80a4906dcf3b3463370f904efa42c21e8295e85c"], cwd=clone_dir, check=True)
+        subprocess.run(["rm", "-rf", ".git"], cwd=clone_dir, check=True)
+        try:
+            os.rename(clone_dir, debd_dir)
+        except OSError:
+            # Another process may have completed its download in the meantime
+            if not os.path.isdir(debd_dir):
+                raise
+    finally:
+        shutil.rmtree(tmp_dir, ignore_errors=True)
 
 
 def load_debd(name, data_dir, dtype="int32"):
-- 
2.43.0


From 7b14fc25959ba2b692f950a6b6e7ee805f2cbcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 22/55] fix: give every run its own results directory

From the third run on (or with two runs starting together) make_results_dir
returned a directory that another run already used.
---
 exp_utils.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/exp_utils.py b/exp_utils.py
index 8c2052a..0d4a0fd 100644
--- a/exp_utils.py
+++ b/exp_utils.py
@@ -89,10 +89,18 @@ def make_results_dir(
     )
 
     if remove_if_exists:
-        if os.path.exists(experiment_dir):
-            print("Directory already exists, adding _2 to the name")
-            experiment_dir += "_2"
-    os.makedirs(experiment_dir, exist_ok=True)
+        base_dir, suffix = experiment_dir, 2
+        while True:
+            try:
+                # Fails if the directory exists already, even if it was created just now by another run
+                os.makedirs(experiment_dir)
+                break
+            except FileExistsError:
+                print(f"Directory already exists, adding _{suffix} to the name")
+                experiment_dir = f"{base_dir}_{suffix}"
+                suffix += 1
+    else:
+        os.makedirs(experiment_dir, exist_ok=True)
     return experiment_dir + "/"
 
 
-- 
2.43.0


From e6d97cf81d9e6ebab7b1b2d92e1105b1ffc489a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 23/55] fix: let ensure_dir tolerate concurrent creation and
 bare file names

---
 exp_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exp_utils.py b/exp_utils.py
index 0d4a0fd..deddc85 100644
--- a/exp_utils.py
+++ b/exp_utils.py
@@ -167,8 +167,8 @@ def ensure_dir(path: str):
     """
 
     d = os.path.dirname(path)
-    if not os.path.exists(d):
-        os.makedirs(d)
+    if d:
+        os.makedirs(d, exist_ok=True)
 
 
 def count_params(model: torch.nn.Module) -> int:
-- 
2.43.0


From c7d19ffe19105e0b92fc9e592de519bc7b26a00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 24/55] fix: raise the original error when its report cannot be
 stored

With a full disk or an existing error directory, catch_exception raised the
file error and the reason why the run failed was lost.
---
 exp_utils.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/exp_utils.py b/exp_utils.py
index deddc85..c6b6b06 100644
--- a/exp_utils.py
+++ b/exp_utils.py
@@ -363,17 +363,21 @@ def catch_exception(output_directory: str, e: Exception):
         src = src[:-1]
     dst = src + "_error"
 
-    # Write error to separate file
-    with open(os.path.join(output_directory, "error.txt"), "w") as f:
-        f.write(errormsg)
-
-    logger.error("Error caught!")
-    logger.error(f"Moving output directory from")
-    logger.error(src)
-    logger.error("to")
-    logger.error(dst)
-
-    shutil.move(src, dst)
+    try:
+        # Write error to separate file
+        with open(os.path.join(output_directory, "error.txt"), "w") as f:
+            f.write(errormsg)
+
+        logger.error("Error caught!")
+        logger.error(f"Moving output directory from")
+        logger.error(src)
+        logger.error("to")
+        logger.error(dst)
+
+        shutil.move(src, dst)
+    except OSError as os_error:
+        # Do not let a failure to report the error replace the error itself
+        logger.error(f"Could not store the error: {os_error}")
     raise e
 
 
-- 
2.43.0


From 0d7a56f91324b3b0344903ba5a9804909700640f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 25/55] fix: load the latest checkpoint instead of an arbitrary
 one

---
 exp_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exp_utils.py b/exp_utils.py
index c6b6b06..95fb990 100644
--- a/exp_utils.py
+++ b/exp_utils.py
@@ -466,7 +466,8 @@ def load_from_checkpoint(results_dir, load_fn, args):
     ckpt_dir = os.path.join(results_dir, "tb", "version_0", "checkpoints")
     files = os.listdir(ckpt_dir)
     assert len(files) > 0, "Checkpoint directory is empty"
-    ckpt_path = os.path.join(ckpt_dir, files[-1])
+    # Take the latest checkpoint (os.listdir returns the files in arbitrary order)
+    ckpt_path = max((os.path.join(ckpt_dir, file) for file in files), key=os.path.getmtime)
     model = load_fn(checkpoint_path=ckpt_path, args=args)
     return model
 
-- 
2.43.0


From 9b8acb728db5074d589f0d0421decddf2947a32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 26/55] fix: generate the same circles dataset on every call

All other synthetic datasets are generated with a fixed random state.
---
 simple_einet/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index 062ecdf..5210799 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -206,7 +206,7 @@ def generate_data(dataset_name: str, n_samples: int = 1000) -> Tuple[torch.Tenso
         data, y = datasets.make_moons(n_samples=n_samples, noise=0.1, random_state=0)
 
     elif tag == "circles":
-        data, y = datasets.make_circles(n_samples=n_samples, factor=0.5, noise=0.05)
+        data, y = datasets.make_circles(n_samples=n_samples, factor=0.5, noise=0.05, random_state=0)
 
     elif tag == "aniso":
         # Anisotropicly distributed data
-- 
2.43.0


From 89b2ebe8ad6df17a3cb1a643c741ac0912539354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 27/55] fix: compute leaf statistics over all data points

The statistics were averaged over batches: a last batch with one row gave NaN
variances (and NaN parameters), and small batches distorted the result.
---
 simple_einet/sampling_utils.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/simple_einet/sampling_utils.py b/simple_einet/sampling_utils.py
index 5206362..d7cf419 100644
--- a/simple_einet/sampling_utils.py
+++ b/simple_einet/sampling_utils.py
@@ -306,22 +306,21 @@ def init_einet_stats(einet: "Einet", dataloader: torch.utils.data.DataLoader):
 
     Returns: None
     """
-    stats_mean = None
-    stats_var = None
+    num_data = 0
+    stats_sum = 0.0
+    stats_sum_sq = 0.0
 
-    # Compute mean and std
+    # Compute mean and variance over all data points, independent of how they are split into batches
     for batch in tqdm(dataloader, desc="Leaf Parameter Initialization"):
         data, label = batch
-        if stats_mean == None:
-            stats_mean = data.mean(dim=0)
-            stats_var = data.var(dim=0)
-        else:
-            stats_mean += data.mean(dim=0)
-            stats_var += data.var(dim=0)
+        num_data += data.shape[0]
+        stats_sum = stats_sum + data.double().sum(dim=0)
+        stats_sum_sq = stats_sum_sq + data.double().square().sum(dim=0)
 
     # Normalize
-    stats_mean /= len(dataloader)
-    stats_var /= len(dataloader)
+    stats_mean = stats_sum / num_data
+    stats_var = (stats_sum_sq / num_data - stats_mean.square()).clamp(min=0.0)
+    stats_mean, stats_var = stats_mean.float(), stats_var.float()
 
     from simple_einet.layers.distributions.normal import Normal
     from simple_einet.einet import Einet
-- 
2.43.0


From 6574c8ae1425a787f388fad89cd226cf42a6c6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 28/55] fix: initialize the leaf statistics of bottom-up models

init_einet_stats assumed a factorized leaf, which bottom-up models do not have.
---
 simple_einet/sampling_utils.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/simple_einet/sampling_utils.py b/simple_einet/sampling_utils.py
index d7cf419..528d61c 100644
--- a/simple_einet/sampling_utils.py
+++ b/simple_einet/sampling_utils.py
@@ -335,25 +335,28 @@ def init_einet_stats(einet: "Einet", dataloader: torch.utils.data.DataLoader):
         else:
             raise ValueError(f"Invalid einet type: {type(einet)} -- must be Einet or EinetMixture.")
 
+        # Bottom-up structures have no factorized leaf around the base leaf
+        base_leaves = [getattr(net.leaf, "base_leaf", net.leaf) for net in einets]
+
         # Reshape to match leaf parameters
         stats_mean_v = (
             stats_mean.view(-1, 1, 1)
             .repeat(1, einets[0].config.num_leaves, einets[0].config.num_repetitions)
-            .view_as(einets[0].leaf.base_leaf.means)
+            .view_as(base_leaves[0].means)
         )
         stats_var_v = (
             stats_var.view(-1, 1, 1)
             .repeat(1, einets[0].config.num_leaves, einets[0].config.num_repetitions)
-            .view_as(einets[0].leaf.base_leaf.logvar)
+            .view_as(base_leaves[0].logvar)
         )
 
         # Set leaf parameters
-        for net in einets:
+        for base_leaf in base_leaves:
             # Add noise to ensure that values are not completely equal along repetitions and einets
-            net.leaf.base_leaf.means.data = stats_mean_v + 0.1 * torch.normal(
+            base_leaf.means.data = stats_mean_v + 0.1 * torch.normal(
                 torch.zeros_like(stats_mean_v), torch.std(stats_mean_v)
             )
-            net.leaf.base_leaf.logvar.data = torch.log(
+            base_leaf.logvar.data = torch.log(
                 stats_var_v
                 + 1e-3
                 + torch.clamp(0.1 * torch.normal(torch.zeros_like(stats_var_v), torch.std(stats_var_v)), min=0.0)
-- 
2.43.0


From 5e395af3612cda301563ce36138611d4b518eb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:24 +0000
Subject: [PATCH 29/55] fix: return mixture samples in the order their
 components were drawn

---
 simple_einet/mixture.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index c55f20b..21eff7f 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -171,14 +171,15 @@ class Mixture(nn.Module):
 
         if evidence is None:
             # Sample without evidence
-            separated_idxs = defaultdict(int)
-            for cluster_idx in cluster_idxs:
-                separated_idxs[cluster_idx] += 1
+            separated_idxs = defaultdict(list)
+            for sample_idx, cluster_idx in enumerate(cluster_idxs):
+                separated_idxs[cluster_idx].append(sample_idx)
 
             samples_all = []
-            for cluster_idx, num_samples_cluster in separated_idxs.items():
+            sample_idxs_all = []
+            for cluster_idx, sample_idxs in separated_idxs.items():
                 samples = self.models[cluster_idx].sample(
-                    num_samples_cluster,
+                    len(sample_idxs),
                     class_index=class_index,
                     evidence=evidence,
                     is_mpe=is_mpe,
@@ -189,11 +190,10 @@ class Mixture(nn.Module):
                     mpe_at_leaves=mpe_at_leaves,
                 )
                 samples_all.append(samples)
+                sample_idxs_all.extend(sample_idxs)
 
-            samples = torch.cat(samples_all, dim=0)
-
-            # Sort results into original order as observed in the batch
-            L = [(cluster_idxs[i], i) for i in range(len(cluster_idxs))]
+            # Sort results into the order in which the components were drawn
+            L = [(sample_idxs_all[i], i) for i in range(len(sample_idxs_all))]
             L.sort()
             _, permutation = zip(*L)
             permutation = torch.tensor(permutation, device=samples.device).view(-1)
-- 
2.43.0


From 8b2e4470b8e0891c8908ef1230c4a77c23ccf849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 30/55] fix: keep the leaf dimension of a ConvPc with a single
 leaf channel

---
 simple_einet/conv_pc.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 57381c1..f008e2b 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -639,9 +639,6 @@ class ConvPc(nn.Module):
         # Factorize data input channels
         x = x.sum(1)
 
-        # Remove empty repetition dimension (artifact from Einet implementation)
-        x = x.squeeze(-1)
-
         # Permute from (N, H, W, C) to (N, C, H, W)
         x = x.permute(0, 3, 1, 2)
 
-- 
2.43.0


From 1b6ad0319b203e32e44c27b0ea501c73968f9c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 31/55] fix: sample piecewise linear leaves from their density

---
 simple_einet/layers/distributions/piecewise_linear.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index 72a0f1b..9a29171 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -335,13 +335,16 @@ class PiecewiseLinearDist:
                             # Clamp indices to be within valid range
                             indices = torch.clamp(indices, 1, len(xs_i) - 1)
 
-                            # Perform linear interpolation to get the sample value
+                            # Invert the CDF: the density is linear in each segment, hence the CDF is quadratic
                             x0, x1 = xs_i[indices - 1], xs_i[indices]
-                            cdf0, cdf1 = cdf[indices - 1], cdf[indices]
-                            slope = (x1 - x0) / (cdf1 - cdf0 + 1e-8)  # Avoid division by zero
+                            y0, y1 = ys_i[indices - 1], ys_i[indices]
+                            area = (u - cdf[indices - 1]) * torch.trapezoid(x=xs_i, y=ys_i)
+                            slope = (y1 - y0) / (x1 - x0)
+                            root = torch.sqrt((y0.square() + 2 * slope * area).clamp(min=0.0))
+                            offset = 2 * area / (y0 + root + 1e-8)  # Avoid division by zero
 
                             # Compute the sampled value
-                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = x0 + slope * (u - cdf0)
+                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = torch.minimum(x0 + offset, x1)
                         else:
                             raise ValueError(f"Unknown data type: {self.domains[i_feature].data_type}")
 
-- 
2.43.0


From 93416fc1f437cfc55b1da9b87054e79ade814955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 32/55] fix: store piecewise linear functions in the state dict

---
 .../layers/distributions/piecewise_linear.py  | 39 +++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index 9a29171..04e4285 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -216,6 +216,45 @@ class PiecewiseLinear(AbstractLeaf):
         self.xs = None
         self.ys = None
 
+    def get_extra_state(self):
+        """Include the piecewise linear functions, which are not parameters, in the state dict."""
+        if not self.is_initialized:
+            return {"is_initialized": False}
+
+        # Only use builtin types and tensors, such that the state can be loaded with torch.load(weights_only=True)
+        domains = []
+        for domain in self.domains:
+            values = domain.values
+            if values is not None:
+                values = [v.item() if hasattr(v, "item") else v for v in values]
+            domains.append((values, domain.min, domain.max, domain.data_type.name))
+
+        return {
+            "is_initialized": True,
+            "xs": self.xs,
+            "ys": self.ys,
+            "mixture_weights": self.mixture_weights,
+            "domains": domains,
+        }
+
+    def set_extra_state(self, state):
+        """Restore the piecewise linear functions from a state dict."""
+        if not state["is_initialized"]:
+            self.reset()
+            return
+
+        def clone(t):
+            return [clone(t_i) for t_i in t] if isinstance(t, list) else t.clone()
+
+        self.xs = clone(state["xs"])
+        self.ys = clone(state["ys"])
+        self.mixture_weights = state["mixture_weights"].clone()
+        self.domains = [
+            Domain(values=values, min=min_value, max=max_value, data_type=DataType[data_type])
+            for values, min_value, max_value, data_type in state["domains"]
+        ]
+        self.is_initialized = True
+
     def _get_base_distribution(self, ctx: SamplingContext = None) -> "PiecewiseLinearDist":
         # Use custom normal instead of PyTorch distribution
         if not self.is_initialized:
-- 
2.43.0


From 6619429d6ef47ec3c31b0f40dae7145c63e00fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 33/55] fix: pass the center box of the varied dataset as a
 tuple

---
 simple_einet/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index 5210799..49baf3e 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -226,7 +226,7 @@ def generate_data(dataset_name: str, n_samples: int = 1000) -> Tuple[torch.Tenso
             n_samples=n_samples,
             cluster_std=[0.5, 0.1, 0.3],
             random_state=0,
-            center_box=[-2, 2],
+            center_box=(-2, 2),
         )
     else:
         raise ValueError(f"Invalid synthetic dataset name: {tag}.")
-- 
2.43.0


From 012472b0d5387907eb6bba4734ad7b07d1d379c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 34/55] fix: reduce 20newsgroup to the same components on every
 call

---
 simple_einet/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index 49baf3e..5cd0301 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -643,6 +643,7 @@ def get_datasets(dataset_name, data_dir, normalize: bool) -> Tuple[Dataset, Data
         # Do dimensionality reduction with PCA
         pca = PCA(
             n_components=50,
+            random_state=42,
         )
         logger.info("Running PCA with 50 components on 20newsgroup dataset")
         t0 = time.time()
-- 
2.43.0


From d1910351d3366f6479d97a87aba917c504cbfaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:56 +0000
Subject: [PATCH 35/55] fix: give piecewise linear leaves of empty clusters a
 density

Without data in a cluster the histogram of a continuous feature is NaN, and
NaN densities were then treated as if the feature was marginalised.
---
 .../layers/distributions/piecewise_linear.py         | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index 04e4285..7b042e7 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -133,10 +133,14 @@ class PiecewiseLinear(AbstractLeaf):
                             # Find histogram bins using numpys "auto" logic
                             bins, _ = _get_bin_edges_torch(data_subset)
 
-                            # Construct histogram
-                            densities = torch.histogram(data_subset.cpu(), bins=bins.cpu(), density=True).hist.to(
-                                data.device
-                            )
+                            if data_subset.shape[0] == 0:
+                                # If there is no data in this cluster, set the density to uniform
+                                densities = torch.ones(len(bins) - 1, device=data.device) / (bins[-1] - bins[0])
+                            else:
+                                # Construct histogram
+                                densities = torch.histogram(data_subset.cpu(), bins=bins.cpu(), density=True).hist.to(
+                                    data.device
+                                )
                             breaks = bins
                             mids = ((breaks + torch.roll(breaks, shifts=-1, dims=0)) / 2)[:-1]
                         else:
-- 
2.43.0


From 9163d61851707d3620e24caef405291ea8059b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 36/55] fix: describe synthetic data as two features instead of
 two channels

Models need at least two features, hence none could be constructed for the
synthetic datasets.
---
 simple_einet/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index 5cd0301..5a1ad1e 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -80,7 +80,8 @@ def get_data_shape(dataset_name: str) -> Shape:
         Tuple[int, int, int]: Tuple of [channels, height, width].
     """
     if "synth" in dataset_name:
-        return Shape(2, 1, 1)
+        # Two features per datapoint
+        return Shape(channels=1, height=2, width=1)
 
     if dataset_name in DEBD:
         shape = DEBD_shapes[dataset_name]["train"]
-- 
2.43.0


From e4f6d1061a1d094a48de4e9aca740dcf27e73792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 37/55] fix: correct number of classes of synthetic datasets
 and digits

---
 simple_einet/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index 5a1ad1e..c0d8541 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -127,7 +127,8 @@ def get_data_num_classes(dataset_name: str) -> int:
         int: Number of classes.
     """
     if "synth" in dataset_name:
-        return 2
+        tag = dataset_name.replace("synth-", "")
+        return {"3-clusters": 3, "9-clusters": 9, "aniso": 3, "varied": 3}.get(tag, 2)
 
     if dataset_name in DEBD:
         return 0
@@ -156,6 +157,7 @@ def get_data_num_classes(dataset_name: str) -> int:
         "covtype": 7,
         "breast_cancer": 2,
         "wine": 3,
+        "digits": 10,
     }[dataset_name]
 
 
-- 
2.43.0


From 8cd23ad1e0001dec0b7e81cea8133e947bd25041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:24 +0000
Subject: [PATCH 38/55] fix: quantize data of discrete leaves to n_bits in
 Lightning training

The binomial leaves were built for n_bits per value but received 8 bits, and
the categorical leaves had one value too few and received unscaled data.
---
 models_pl.py         | 6 ++++--
 simple_einet/dist.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/models_pl.py b/models_pl.py
index 528209c..f102c83 100644
--- a/models_pl.py
+++ b/models_pl.py
@@ -15,6 +15,7 @@ from simple_einet.data import get_data_shape
 from simple_einet.dist import Dist, get_distribution
 from simple_einet.einet import EinetConfig, Einet
 from simple_einet.mixture import Mixture
+from simple_einet.utils import reduce_bits
 
 # Translate the dataloader index to the dataset name
 DATALOADER_ID_TO_SET_NAME = {0: "train", 1: "val", 2: "test"}
@@ -119,8 +120,9 @@ class LitModel(pl.LightningModule, ABC):
 
     def preprocess(self, data: torch.Tensor):
         """Preprocess data before passing it to the model."""
-        if self.cfg.dist == Dist.BINOMIAL:
-            data = data * 255.0
+        if self.cfg.dist in (Dist.BINOMIAL, Dist.CATEGORICAL):
+            # Discrete leaves model n_bits per value
+            data = reduce_bits(data, self.cfg.n_bits)
 
         return data
 
diff --git a/simple_einet/dist.py b/simple_einet/dist.py
index 9181db8..66b2bb5 100644
--- a/simple_einet/dist.py
+++ b/simple_einet/dist.py
@@ -92,7 +92,7 @@ def get_distribution(dist: Dist, cfg):
         leaf_kwargs = {"total_count": 2**cfg.n_bits - 1}
     elif dist == Dist.CATEGORICAL:
         leaf_type = Categorical
-        leaf_kwargs = {"num_bins": 2**cfg.n_bits - 1}
+        leaf_kwargs = {"num_bins": 2**cfg.n_bits}
     elif dist == Dist.MULTIVARIATE_NORMAL:
         leaf_type = MultivariateNormal
         leaf_kwargs = {"cardinality": cfg.multivariate_cardinality}
-- 
2.43.0


From a59fb2b8c8eda67f079ead8f0cd9586b46e4acc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:26 +0000
Subject: [PATCH 39/55] fix: evaluate a last batch with a single datapoint

squeeze() turned its log-likelihood into a scalar, which cannot be appended to
the list of losses.
---
 main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.py b/main.py
index 42598c0..742129b 100644
--- a/main.py
+++ b/main.py
@@ -120,7 +120,7 @@ def test(model, device, loader, tag):
 
             lls = log_likelihoods(outputs)
             test_loss += -1 * lls.sum()
-            test_losses += lls.squeeze().cpu().tolist()
+            test_losses += lls.flatten().cpu().tolist()
 
             if args.classification:
                 _, predicted = outputs.max(1)
-- 
2.43.0


From 91e0e68020184ab1cb5ec195e66e1831629ca97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 40/55] fix: report errors whose message cannot be encoded

---
 exp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exp_utils.py b/exp_utils.py
index 95fb990..5ea7976 100644
--- a/exp_utils.py
+++ b/exp_utils.py
@@ -365,7 +365,7 @@ def catch_exception(output_directory: str, e: Exception):
 
     try:
         # Write error to separate file
-        with open(os.path.join(output_directory, "error.txt"), "w") as f:
+        with open(os.path.join(output_directory, "error.txt"), "w", errors="backslashreplace") as f:
             f.write(errormsg)
 
         logger.error("Error caught!")
-- 
2.43.0


From acef66c0ca9fbbcb91b4272ca54ae6e7cf5cfefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 41/55] fix: move failed runs to a name that no earlier run has
 taken

---
 exp_utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/exp_utils.py b/exp_utils.py
index 5ea7976..a2d267e 100644
--- a/exp_utils.py
+++ b/exp_utils.py
@@ -343,6 +343,15 @@ def detect_anomaly(losses: torch.Tensor, iteration: int):
             raise FloatingPointError("Loss became infinite or NaN at iteration={}!".format(iteration))
 
 
+def move_to_unused(src: str, dst: str):
+    """Move a directory to the given name, or to that name with a number if it is taken by an earlier run."""
+    base, suffix = dst, 2
+    while os.path.lexists(dst):
+        dst = f"{base}_{suffix}"
+        suffix += 1
+    shutil.move(src, dst)
+
+
 def catch_exception(output_directory: str, e: Exception):
     """Catch exception and rename output directory.
 
@@ -374,7 +383,7 @@ def catch_exception(output_directory: str, e: Exception):
         logger.error("to")
         logger.error(dst)
 
-        shutil.move(src, dst)
+        move_to_unused(src, dst)
     except OSError as os_error:
         # Do not let a failure to report the error replace the error itself
         logger.error(f"Could not store the error: {os_error}")
@@ -399,7 +408,7 @@ def catch_kb_interrupt(output_directory):
     logger.error("to")
     logger.error(dst)
 
-    shutil.move(src, dst)
+    move_to_unused(src, dst)
 
 
 def preprocess(
-- 
2.43.0


From 3576300a4c76c7bbb3f0095c90e05d049e52c900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 42/55] fix: FactorizedLeafSimple broadcasts the selected leaf
 over the channel dimension when returning leaf parameters differentiably

---
 simple_einet/layers/factorized_leaf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index b830335..5b0653d 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -393,9 +393,9 @@ class FactorizedLeafSimple(AbstractLayer):
             if self.num_dummy_nodes > 0:
                 indices_out = indices_out[:, : -self.num_dummy_nodes]
 
-            indices_out = indices_out.unsqueeze(-1)
+            indices_out = indices_out.unsqueeze(1)  # make space for channel dim
+            indices_out = indices_out.unsqueeze(-1)  # make space for num_params dim
             params = params.squeeze(-2)  # remove repetition index
-            indices_out = indices_out.unsqueeze(-1)  # make space for num_channels dim
             params = index_one_hot(params, index=indices_out, dim=-2)
         else:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-- 
2.43.0


From cf426d6bf47e3e770674c134c8efeee06cdb2879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 43/55] fix: MultiDistributionLayer.get_params returns the
 parameters in the order of the features

---
 simple_einet/layers/distributions/multidistribution.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/multidistribution.py b/simple_einet/layers/distributions/multidistribution.py
index 5eefab4..c799a66 100644
--- a/simple_einet/layers/distributions/multidistribution.py
+++ b/simple_einet/layers/distributions/multidistribution.py
@@ -139,4 +139,10 @@ class MultiDistributionLayer(AbstractLeaf):
                 new_shape = list(p.shape)
                 new_shape[-1] = max_num_params - p.shape[-1]
                 params[i] = torch.cat([p, torch.zeros(new_shape, device=p.device, dtype=p.dtype)], dim=-1)
-        return torch.cat(params, dim=2)
+        params = torch.cat(params, dim=2)
+
+        # If inversion is necessary, permute features to obtain the original order
+        if self.needs_inversion:
+            params = params[:, :, self.inverted_index]
+
+        return params
-- 
2.43.0


From f290de5614a8fdef5de0dccc6a89c4d0e3faca1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 44/55] fix: sampling leaf parameters without a factorized leaf
 layer answers every sample with all parameters of its leaf

---
 .../layers/distributions/abstract_leaf.py      | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/simple_einet/layers/distributions/abstract_leaf.py b/simple_einet/layers/distributions/abstract_leaf.py
index 23fe48f..9b0396e 100644
--- a/simple_einet/layers/distributions/abstract_leaf.py
+++ b/simple_einet/layers/distributions/abstract_leaf.py
@@ -92,13 +92,16 @@ def dist_mode(distribution: dist.Distribution, ctx: SamplingContext = None) -> t
         raise Exception(f"MPE not yet implemented for type {type(distribution)}")
 
 
-def dist_sample(distribution: dist.Distribution, ctx: SamplingContext = None) -> torch.Tensor:
+def dist_sample(
+    distribution: dist.Distribution, ctx: SamplingContext = None, params: torch.Tensor = None
+) -> torch.Tensor:
     """
     Sample n samples from a given distribution.
 
     Args:
         distribution: Leaf distribution from which to sample from.
         ctx: Sampling context.
+        params: Parameters of the leaf, stacked in the last dimension. Only needed if ctx.return_leaf_params is set.
 
     Returns:
         torch.Tensor: Samples from the given distribution.
@@ -115,10 +118,8 @@ def dist_sample(distribution: dist.Distribution, ctx: SamplingContext = None) ->
         from simple_einet.layers.distributions.normal import CustomNormal
 
         if ctx.return_leaf_params:
-            samples = distribution.get_params()
-
             # Add batch dimension
-            samples = samples.unsqueeze(0)
+            samples = params.unsqueeze(0).expand(ctx.num_samples, *([-1] * params.dim()))
         else:
             if type(distribution) == dist.Normal:
                 distribution = dist.Normal(loc=distribution.loc, scale=distribution.scale * np.sqrt(ctx.temperature_leaves))
@@ -144,7 +145,7 @@ def dist_sample(distribution: dist.Distribution, ctx: SamplingContext = None) ->
         samples = index_one_hot(samples, index=r_idxs, dim=-2)
     else:
         r_idxs = ctx.indices_repetition.view(-1, 1, 1, 1, 1, 1)
-        r_idxs = r_idxs.expand(-1, num_channels, num_features, num_leaves, -1, -1)
+        r_idxs = r_idxs.expand(-1, num_channels, num_features, num_leaves, -1, num_params)
         samples = samples.gather(dim=-2, index=r_idxs)
         samples = samples.squeeze(-2)
 
@@ -156,8 +157,8 @@ def dist_sample(distribution: dist.Distribution, ctx: SamplingContext = None) ->
         else:
             # Choose only specific samples for each feature/scope
             p_idxs = ctx.indices_out.view(-1, 1, num_features, 1, 1)
-            p_idxs = p_idxs.expand(-1, num_channels, -1, -1, -1)
-            samples = samples.gather(dim=3, index=p_idxs).squeeze(-1)
+            p_idxs = p_idxs.expand(-1, num_channels, -1, -1, num_params)
+            samples = samples.gather(dim=3, index=p_idxs).squeeze(3)
 
     if ctx.return_leaf_params:
         return samples
@@ -308,7 +309,8 @@ class AbstractLeaf(AbstractLayer, ABC):
             torch.Tensor: A tensor of shape (context.num_samples,) or (1,) containing the drawn samples.
         """
         d = self._get_base_distribution(ctx)
-        samples = dist_sample(distribution=d, ctx=ctx)
+        params = self.get_params() if ctx.return_leaf_params else None
+        samples = dist_sample(distribution=d, ctx=ctx, params=params)
         return samples
 
     def extra_repr(self):
-- 
2.43.0


From 5d51ffe45487cf76535fa43a1830d0072e84ba1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 45/55] fix: einsum layers give zero probability instead of NaN
 when all inputs underflow

---
 simple_einet/layers/einsum.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simple_einet/layers/einsum.py b/simple_einet/layers/einsum.py
index 4e4a227..78a2b96 100644
--- a/simple_einet/layers/einsum.py
+++ b/simple_einet/layers/einsum.py
@@ -135,8 +135,11 @@ class EinsumLayer(AbstractSumLayer):
 
         # Prepare for LogEinsumExp trick (see paper for details)
         left_prob_max = torch.max(left_log_prob, dim=2, keepdim=True)[0]
-        left_prob = torch.exp(left_log_prob - left_prob_max)
         right_prob_max = torch.max(right_log_prob, dim=2, keepdim=True)[0]
+        # If all inputs have zero probability there is nothing to factor out (-inf - (-inf) would result in NaN)
+        left_prob_max = left_prob_max.masked_fill(left_prob_max == -float("inf"), 0.0)
+        right_prob_max = right_prob_max.masked_fill(right_prob_max == -float("inf"), 0.0)
+        left_prob = torch.exp(left_log_prob - left_prob_max)
         right_prob = torch.exp(right_log_prob - right_prob_max)
 
         # Project weights into valid space
@@ -148,7 +151,8 @@ class EinsumLayer(AbstractSumLayer):
         # n: batch, i: left-channels, j: right-channels, d:features, o: output-channels, r: repetitions
         prob = torch.einsum("ndir,ndjr,dorij->ndor", left_prob, right_prob, weights)
 
-        # LogEinsumExp trick, re-add the max
+        # LogEinsumExp trick, re-add the max (the gradient 1/prob of an underflowed probability would overflow: drop it)
+        prob = torch.where(prob < torch.finfo(prob.dtype).tiny, prob.detach(), prob)
         prob = torch.log(prob) + left_prob_max + right_prob_max
 
         # Save input if input cache is enabled
-- 
2.43.0


From debb85c852f95ba8a7807018857bce5102f14a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:15 +0000
Subject: [PATCH 46/55] fix: size mixture centroids for all channels and leave
 marginalized scopes out in every channel

---
 simple_einet/mixture.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index 21eff7f..f3f781a 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -26,9 +26,11 @@ class Mixture(nn.Module):
         for _ in range(n_components):
             if isinstance(config, EinetConfig):
                 model = Einet(config)
-                self.num_features = config.num_features
+                self.num_scopes = config.num_features
+                self.num_features = config.num_features * config.num_channels
             elif isinstance(config, ConvPcConfig):
                 assert data_shape is not None, "data_shape must not be None (required for ConvPc)"
+                self.num_scopes = data_shape.num_pixels
                 self.num_features = data_shape.num_pixels * data_shape.channels
                 model = ConvPc(config, data_shape)
             else:
@@ -69,7 +71,8 @@ class Mixture(nn.Module):
     def _predict_cluster(self, x, marginalized_scopes: Optional[List[int]] = None):
         x = x.view(x.shape[0], -1)  # input needs to be [n, d]
         if marginalized_scopes is not None:
-            keep_idx = list(sorted([i for i in range(self.num_features) if i not in marginalized_scopes]))
+            # A scope covers all channels of its feature
+            keep_idx = [i for i in range(self.num_features) if i % self.num_scopes not in marginalized_scopes]
             centroids = self.centroids[:, keep_idx]
             x = x[:, keep_idx]
         else:
-- 
2.43.0


From 87da279b69ad5d4cef22ff8aecc2fcededc89fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:14 +0000
Subject: [PATCH 47/55] fix: accept an empty list of marginalized scopes

---
 simple_einet/layers/distributions/abstract_leaf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simple_einet/layers/distributions/abstract_leaf.py b/simple_einet/layers/distributions/abstract_leaf.py
index 9b0396e..8c6bb01 100644
--- a/simple_einet/layers/distributions/abstract_leaf.py
+++ b/simple_einet/layers/distributions/abstract_leaf.py
@@ -250,6 +250,8 @@ class AbstractLeaf(AbstractLayer, ABC):
             # Transform to tensor
             if type(marginalized_scopes) != torch.Tensor:
                 s = torch.tensor(marginalized_scopes)
+                if s.numel() == 0:  # An empty list has no integer type
+                    s = s.long()
             else:
                 s = marginalized_scopes
 
-- 
2.43.0


From a0ea55be3107bf4fc5291ae0c6c11c73217dacbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:54 +0000
Subject: [PATCH 48/55] fix: accept inputs of any memory layout

---
 simple_einet/conv_pc.py                               | 4 ++--
 simple_einet/einet.py                                 | 4 ++--
 simple_einet/layers/distributions/piecewise_linear.py | 8 ++++----
 simple_einet/mixture.py                               | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index f008e2b..6b7e7e0 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -630,7 +630,7 @@ class ConvPc(nn.Module):
         return next(self.parameters()).device
 
     def _forward_leaf_data(self, x):
-        x = x.view(x.size(0), self.data_shape.channels, self.data_shape.height * self.data_shape.width)
+        x = x.reshape(x.size(0), self.data_shape.channels, self.data_shape.height * self.data_shape.width)
         x = self.leaf_data(x, marginalized_scopes=None)
         x = x.view(
             x.size(0), self.data_shape.channels, self.data_shape.height, self.data_shape.width, self.config.channels[0]
@@ -721,7 +721,7 @@ class ConvPc(nn.Module):
 
         if evidence is not None:
             # First make a copy such that the original object is not changed
-            evidence = evidence.clone().float()
+            evidence = evidence.clone(memory_format=torch.contiguous_format).float()
             shape_evidence = evidence.shape
             evidence = evidence.view_as(samples)
             mask = torch.isnan(evidence)
diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 276542c..0c3dfde 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -136,7 +136,7 @@ class Einet(nn.Module):
             x = x.unsqueeze(1)
 
         if x.dim() == 4:  # [N, C, H, W]
-            x = x.view(x.shape[0], self.config.num_channels, -1)
+            x = x.reshape(x.shape[0], self.config.num_channels, -1)
 
         assert x.dim() == 3
         assert (
@@ -688,7 +688,7 @@ class Einet(nn.Module):
 
             if evidence is not None:
                 # First make a copy such that the original object is not changed
-                evidence = evidence.clone().float()
+                evidence = evidence.clone(memory_format=torch.contiguous_format).float()
                 shape_evidence = evidence.shape
                 evidence = evidence.view_as(samples)
                 if marginalized_scopes is None:
diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index 7b042e7..2c2d557 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -87,14 +87,14 @@ class PiecewiseLinear(AbstractLeaf):
 
             # Cluster data into num_leaves clusters
             kmeans = KMeans(n_clusters=self.num_leaves, mode="euclidean", verbose=0, init_method="random")
-            kmeans.fit(data.view(data.shape[0], -1).float())
+            kmeans.fit(data.reshape(data.shape[0], -1).float())
 
-            predictions = kmeans.predict(data.view(data.shape[0], -1).float())
+            predictions = kmeans.predict(data.reshape(data.shape[0], -1).float())
             counts = torch.bincount(predictions, minlength=self.num_leaves)
             mixture_weights[i_repetition] = counts / counts.sum()
 
             # Get cluster assigments for each datapoint
-            cluster_idxs = kmeans.max_sim(a=data.view(data.shape[0], -1).float(), b=kmeans.centroids)[1]
+            cluster_idxs = kmeans.max_sim(a=data.reshape(data.shape[0], -1).float(), b=kmeans.centroids)[1]
             for cluster_idx in range(self.num_leaves):
 
                 # Select data for this cluster
@@ -110,7 +110,7 @@ class PiecewiseLinear(AbstractLeaf):
                     for i_channel in range(self.num_channels):
 
                         # Select relevant data
-                        data_subset = cluster_data[:, i_channel, i_feature].view(cluster_data.shape[0], 1).float()
+                        data_subset = cluster_data[:, i_channel, i_feature].reshape(cluster_data.shape[0], 1).float()
 
                         # Construct histogram
                         if domains[i_feature].data_type == DataType.DISCRETE:
diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index f3f781a..aeca28e 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -58,7 +58,7 @@ class Mixture(nn.Module):
             data = torch.cat(l, dim=0).to(device)
 
         data = data.float()  # input has to be [n, d]
-        predictions = self._kmeans.fit_predict(data.view(data.shape[0], -1))
+        predictions = self._kmeans.fit_predict(data.reshape(data.shape[0], -1))
         counts = torch.bincount(predictions, minlength=self.n_components)
         self.mixture_weights.data = counts / counts.sum()
 
@@ -69,7 +69,7 @@ class Mixture(nn.Module):
             self.centroids.data = self.centroids.data * self.config.leaf_kwargs["total_count"]
 
     def _predict_cluster(self, x, marginalized_scopes: Optional[List[int]] = None):
-        x = x.view(x.shape[0], -1)  # input needs to be [n, d]
+        x = x.reshape(x.shape[0], -1)  # input needs to be [n, d]
         if marginalized_scopes is not None:
             # A scope covers all channels of its feature
             keep_idx = [i for i in range(self.num_features) if i % self.num_scopes not in marginalized_scopes]
-- 
2.43.0


From 107a1fb7efeca1500cd7681f6839ed3a89547041 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 02:34:32 +0000
Subject: [PATCH 49/55] fix: initialise mixtures on machines without a GPU

---
 main_pl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_pl.py b/main_pl.py
index b6b687f..3e39e59 100644
--- a/main_pl.py
+++ b/main_pl.py
@@ -119,7 +119,7 @@ def main(cfg: DictConfig):
         if cfg.mixture:
             # If we chose a mixture of einets, we need to initialize the mixture weights
             logger.info("Initializing Einet mixture weights")
-            model.spn.initialize(dataloader=train_loader, device=devices[0])
+            model.spn.initialize(dataloader=train_loader, device=devices[0] if accelerator == "gpu" else accelerator)
 
         if cfg.init_leaf_data:
             logger.info("Initializing leaf distributions from data statistics")
-- 
2.43.0


From ad95046872bd1f284a8cae4c4f689b5c0df5eb67 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 02:34:32 +0000
Subject: [PATCH 50/55] fix: load the kind of model a checkpoint was saved
 from, with its configuration

---
 main_pl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/main_pl.py b/main_pl.py
index 3e39e59..e7bcf68 100644
--- a/main_pl.py
+++ b/main_pl.py
@@ -1,4 +1,5 @@
 #!/usr/bin/env python
+from functools import partial
 import omegaconf
 import time
 import wandb
@@ -100,9 +101,11 @@ def main(cfg: DictConfig):
 
     # Load or create model
     if cfg.load_and_eval:
+        model_class = SpnDiscriminative if cfg.classification else SpnGenerative
         model = load_from_checkpoint(
             run_dir,
-            load_fn=SpnGenerative.load_from_checkpoint,
+            # Checkpoints contain the configuration, which torch does not load by default since version 2.6
+            load_fn=partial(model_class.load_from_checkpoint, weights_only=False),
             args=cfg,
         )
     else:
-- 
2.43.0


From 6697c0986ac229127574508950989ad9aec63d46 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 02:34:32 +0000
Subject: [PATCH 51/55] fix: deliver the digits data set in single precision,
 like the other ones

---
 simple_einet/data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index c0d8541..df8a22c 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -504,9 +504,9 @@ def get_datasets(dataset_name, data_dir, normalize: bool) -> Tuple[Dataset, Data
         X_val = X_val.reshape(-1, *shape)
         X_test = X_test.reshape(-1, *shape)
 
-        dataset_train = torch.utils.data.TensorDataset(torch.tensor(X_train), torch.tensor(y_train))
-        dataset_val = torch.utils.data.TensorDataset(torch.tensor(X_val), torch.tensor(y_val))
-        dataset_test = torch.utils.data.TensorDataset(torch.tensor(X_test), torch.tensor(y_test))
+        dataset_train = torch.utils.data.TensorDataset(torch.tensor(X_train, dtype=torch.float32), torch.tensor(y_train))
+        dataset_val = torch.utils.data.TensorDataset(torch.tensor(X_val, dtype=torch.float32), torch.tensor(y_val))
+        dataset_test = torch.utils.data.TensorDataset(torch.tensor(X_test, dtype=torch.float32), torch.tensor(y_test))
 
     elif dataset_name == "fmnist" or dataset_name == "fmnist-32":
         if normalize:
-- 
2.43.0


From 01d5492958dcdbaf98eaed96a029365db9233749 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 02:47:25 +0000
Subject: [PATCH 52/55] fix: plot the distribution of models with several
 classes

---
 exp_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exp_utils.py b/exp_utils.py
index a2d267e..56cd118 100644
--- a/exp_utils.py
+++ b/exp_utils.py
@@ -547,7 +547,8 @@ def plot_distribution(model, dataset_name, logger_wandb: WandbLogger = None):
         X, Y = np.meshgrid(x, y)
 
         Z = torch.exp(model(torch.from_numpy(np.c_[X.flatten(), Y.flatten()]).to(data.device).float()).float()).cpu()
-        Z = Z.view(X.shape)
+        # Average over the classes of the model
+        Z = Z.mean(dim=1).view(X.shape)
         CS = plt.contourf(X, Y, Z, 100, cmap=plt.cm.viridis)
         plt.colorbar(CS)
 
-- 
2.43.0


From 351d55b9554b9d4a1417817544ff5abcc0298ea6 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 02:47:25 +0000
Subject: [PATCH 53/55] fix: give stochastic weight averaging the learning rate
 it requires

---
 main_pl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_pl.py b/main_pl.py
index e7bcf68..7f30e29 100644
--- a/main_pl.py
+++ b/main_pl.py
@@ -137,7 +137,7 @@ def main(cfg: DictConfig):
 
     # Add StochasticWeightAveraging callback
     if cfg.swa:
-        swa_callback = StochasticWeightAveraging()
+        swa_callback = StochasticWeightAveraging(swa_lrs=cfg.lr)
         callbacks.append(swa_callback)
 
     # Enable rich progress bar
-- 
2.43.0


From b99e263c4978288db8ac42fc180e10677d6c26c0 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 03:23:00 +0000
Subject: [PATCH 54/55] fix: drop the scheduler option that newer versions of
 torch no longer know

---
 main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.py b/main.py
index 742129b..c84e67e 100644
--- a/main.py
+++ b/main.py
@@ -197,7 +197,7 @@ if __name__ == "__main__":
 
     # Optimize Einet parameters (weights and leaf params)
     optimizer = torch.optim.Adam(model.parameters(), lr=args.lr)
-    lr_scheduler = torch.optim.lr_scheduler.StepLR(optimizer, step_size=2, gamma=1e-1, verbose=True)
+    lr_scheduler = torch.optim.lr_scheduler.StepLR(optimizer, step_size=2, gamma=1e-1)
 
     model, optimizer = fabric.setup(model, optimizer)
 
-- 
2.43.0


From 22453c6e218dfefd0198145bb778729c8c475012 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 03:23:23 +0000
Subject: [PATCH 55/55] fix: run main.py with bottom-up structures

---
 main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.py b/main.py
index c84e67e..976108d 100644
--- a/main.py
+++ b/main.py
@@ -193,7 +193,7 @@ if __name__ == "__main__":
         sum(p.numel() for p in model.parameters() if p.requires_grad),
     )
 
-    has_gauss_dist = type(model.leaf.base_leaf) in (Normal, RatNormal)
+    has_gauss_dist = config.leaf_type in (Normal, RatNormal)
 
     # Optimize Einet parameters (weights and leaf params)
     optimizer = torch.optim.Adam(model.parameters(), lr=args.lr)
-- 
2.43.0

