From d7a2028721544734db17cfd08173f2cf8e5a605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 01/44] fix: draw side and size of twohalfnorm from different
 seeds

---
 appletree/randgen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/appletree/randgen.py b/appletree/randgen.py
index 6d9a3ea..9dbfe87 100644
--- a/appletree/randgen.py
+++ b/appletree/randgen.py
@@ -640,6 +640,8 @@ def twohalfnorm(key, mu, sigma_pos, sigma_neg, shape=()):
     use_pos_half = random.uniform(seed, shape, minval=0.0, maxval=1.0) < pos_half_prob
     use_neg_half = ~use_pos_half
 
+    # The side and the size of the offset have to be independent
+    key, seed = random.split(key)
     n_sigma = jnp.abs(random.normal(seed, shape=shape))
     offset = use_pos_half * n_sigma * sigma_pos - use_neg_half * n_sigma * sigma_neg
     rvs = offset + mu
-- 
2.43.0


From 67a5e011b827b9ee143ff48a7316c3a3dee2dcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 02/44] fix: do not take log10 of the values of log_point maps

---
 appletree/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/config.py b/appletree/config.py
index 4845980..73918e1 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -265,7 +265,7 @@ class Map(Config):
         val = self.interpolator(
             self.preprocess(pos),
             self.preprocess(self.coordinate_system),
-            self.preprocess(self.map),
+            self.map,
         )
         return val
 
-- 
2.43.0


From 60fbbf51fdb493ea8edf585d98fa4c350a7f4893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 03/44] fix: inverse distance interpolation is finite on the
 nodes of the map

---
 appletree/interpolation.py | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/appletree/interpolation.py b/appletree/interpolation.py
index 4f79a70..0f19d2c 100644
--- a/appletree/interpolation.py
+++ b/appletree/interpolation.py
@@ -157,8 +157,11 @@ def map_interpolator_regular_binning_2d(pos, ref_pos_lowers, ref_pos_uppers, ref
     dr3 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos3 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
     dr4 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos4 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
 
-    val = val1 / dr1 + val2 / dr2 + val3 / dr3 + val4 / dr4
-    val /= 1.0 / dr1 + 1.0 / dr2 + 1.0 / dr3 + 1.0 / dr4
+    # Scale the weights by the smallest distance, otherwise they overflow on the nodes
+    dr = jnp.stack([dr1, dr2, dr3, dr4])
+    weights = jnp.min(dr, axis=0) / dr
+    val = jnp.sum(jnp.stack([val1, val2, val3, val4]) * weights, axis=0)
+    val /= jnp.sum(weights, axis=0)
 
     return val
 
@@ -221,26 +224,11 @@ def map_interpolator_regular_binning_3d(pos, ref_pos_lowers, ref_pos_uppers, ref
     dr7 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos7 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
     dr8 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos8 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
 
-    val = (
-        val1 / dr1
-        + val2 / dr2
-        + val3 / dr3
-        + val4 / dr4
-        + val5 / dr5
-        + val6 / dr6
-        + val7 / dr7
-        + val8 / dr8
-    )
-    val /= (
-        1.0 / dr1
-        + 1.0 / dr2
-        + 1.0 / dr3
-        + 1.0 / dr4
-        + 1.0 / dr5
-        + 1.0 / dr6
-        + 1.0 / dr7
-        + 1.0 / dr8
-    )
+    # Scale the weights by the smallest distance, otherwise they overflow on the nodes
+    dr = jnp.stack([dr1, dr2, dr3, dr4, dr5, dr6, dr7, dr8])
+    weights = jnp.min(dr, axis=0) / dr
+    val = jnp.stack([val1, val2, val3, val4, val5, val6, val7, val8])
+    val = jnp.sum(val * weights, axis=0) / jnp.sum(weights, axis=0)
 
     return val
 
-- 
2.43.0


From 1eba37fb4ab16995a1189dd3235382d23c9c259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 04/44] fix: 1D regular binning map accepts edges with shape
 (1,)

---
 appletree/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/interpolation.py b/appletree/interpolation.py
index 0f19d2c..7d4ee3a 100644
--- a/appletree/interpolation.py
+++ b/appletree/interpolation.py
@@ -109,7 +109,7 @@ def map_interpolator_regular_binning_1d(pos, ref_pos_lowers, ref_pos_uppers, ref
     """
     assert len(pos.shape) == 1, "pos must have 1 columns"
 
-    ref_pos = jnp.linspace(ref_pos_lowers, ref_pos_uppers, len(ref_val))
+    ref_pos = jnp.linspace(jnp.squeeze(ref_pos_lowers), jnp.squeeze(ref_pos_uppers), len(ref_val))
     val = curve_interpolator(pos, ref_pos, ref_val)
 
     return val
-- 
2.43.0


From b8f10980e2d6bc4da5cd7c371746e7f041ec9e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 05/44] fix: posterior parameters are not taken from a previous
 fit

---
 appletree/context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/appletree/context.py b/appletree/context.py
index 2e49d3e..88c9656 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -223,6 +223,9 @@ class Context:
     ):
         """Prepare for fitting, initialize backend and sampler."""
         self._set_backend(nwalkers, read_only=read_only, reset=reset)
+        # The chain is going to change, so drop what get_post_parameters cached
+        self.__dict__.pop("_logp", None)
+        self.__dict__.pop("_chain", None)
         self.sampler = emcee.EnsembleSampler(
             nwalkers,
             self._ndim,
-- 
2.43.0


From 781098527efd84bb2a9f76c423921a9f1c0b54d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 06/44] fix: parse the instruct saved in the backend as JSON

---
 appletree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/context.py b/appletree/context.py
index 88c9656..f2cec18 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -60,7 +60,7 @@ class Context:
     def from_backend(cls, backend_h5_file_name, moves=None):
         """Initialize context from a backend_h5 file."""
         with h5py.File(get_file_path(backend_h5_file_name)) as file:
-            instruct = eval(file["mcmc"].attrs["instruct"])
+            instruct = json.loads(file["mcmc"].attrs["instruct"])
             nwalkers = file["mcmc"].attrs["nwalkers"]
             batch_size = file["mcmc"].attrs["batch_size"]
         tree = cls(instruct)
-- 
2.43.0


From 68ed6c8238fdbc853f9b6948d707fe92186060c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 07/44] fix: scaler of a built SigmaMap does not follow later
 config changes

---
 appletree/config.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/appletree/config.py b/appletree/config.py
index 73918e1..a59f2c4 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -488,6 +488,8 @@ class SigmaMap(Config):
         self.upper.build(llh_name=self.llh_name)
 
         required_parameter = self.required_parameter()
+        # Do not look up the global configs again when applying the maps
+        self._required_parameter = required_parameter
         if required_parameter is not None:
             print(
                 f"{self.llh_name}'s map {self.name} is using "
@@ -541,10 +543,10 @@ class SigmaMap(Config):
 
     def apply(self, pos, parameters):
         """Apply SigmaMap with sigma and position."""
-        if self.required_parameter() is None:
+        if self._required_parameter is None:
             sigma = 1.0
         else:
-            sigma = parameters[self.required_parameter()]
+            sigma = parameters[self._required_parameter]
         median = self.median.apply(pos)
         lower = self.lower.apply(pos)
         upper = self.upper.apply(pos)
-- 
2.43.0


From 9923a2428a3c260f7847d8096bfc657c5a62dbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 08/44] fix: lineage of a plugin instance uses its own configs

---
 appletree/plugin.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/appletree/plugin.py b/appletree/plugin.py
index 212ad6b..6b8187a 100644
--- a/appletree/plugin.py
+++ b/appletree/plugin.py
@@ -97,12 +97,8 @@ class Plugin:
             "depends_on": self.depends_on,
             "provides": self.provides,
             "parameters": self.parameters,
-            "takes_config": dict(
-                zip(
-                    self.takes_config.keys(),
-                    [v.lineage for v in self.takes_config.values()],
-                )
-            ),
+            # configs of this instance, self.takes_config is shared by all instances
+            "takes_config": {k: getattr(self, k).lineage for k in self.takes_config.keys()},
         }
 
     @property
-- 
2.43.0


From e7bb551967dcb58b74e2b4bf0aa3a127a72757c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 09/44] fix: plot the maps of every likelihood

---
 appletree/plot.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/appletree/plot.py b/appletree/plot.py
index b291874..cb0944a 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -14,6 +14,7 @@ from appletree.utils import errors_to_two_half_norm_sigmas
 from appletree.randgen import TwoHalfNorm
 from appletree.config import Map, SigmaMap
 from appletree.component import ComponentSim
+from appletree.share import _cached_functions
 
 
 class Plotter:
@@ -472,8 +473,13 @@ def _collect_maps(context):
                 provides = work[1]
                 # Look up the plugin class via its first provides name
                 plugin_class = component._plugin_class_registry[provides[0]]
+                # The configs of the class are shared by all likelihoods,
+                # only the ones of the instance are those used by the simulation
+                instances = _cached_functions.get(component.llh_name, {})
+                plugin = instances.get(work[0] + "_" + component.name)
 
-                for config in plugin_class.takes_config.values():
+                for config_name, config in plugin_class.takes_config.items():
+                    config = getattr(plugin, config_name, config)
                     if isinstance(config, SigmaMap):
                         key = (
                             config.median.file_path,
-- 
2.43.0


From 73b73ea9df4d713fe03d920ebacee957a6f665af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 10/44] fix: dump lineage with arrays

---
 appletree/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/appletree/utils.py b/appletree/utils.py
index 6b08084..49473d7 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -218,7 +218,10 @@ def calculate_sha256(file_path):
 def dump_lineage(file_path, entity):
     """Dump lineage of whatever level into .json file."""
     with open(file_path, "w") as f:
-        f.write(json.dumps(entity.lineage, **JSON_OPTIONS))
+        # Some configs, e.g. ConstantSet, are arrays
+        f.write(
+            json.dumps(entity.lineage, default=lambda x: np.asarray(x).tolist(), **JSON_OPTIONS)
+        )
 
 
 @export
-- 
2.43.0


From 44816fe9d3203aae86b42dbe62b69c3ae16696a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 11/44] fix: uniform prior is zero outside of its boundaries

---
 appletree/parameter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/appletree/parameter.py b/appletree/parameter.py
index 03baebb..bfdbb4e 100644
--- a/appletree/parameter.py
+++ b/appletree/parameter.py
@@ -167,7 +167,8 @@ class Parameter:
             elif prior_type == "free":
                 pass
             elif prior_type == "uniform":
-                pass
+                if val < args["lower"] or val > args["upper"]:
+                    log_prior += -np.inf
 
         return log_prior
 
-- 
2.43.0


From 855f606cb228385abe08b3b4ef33f342199bd8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 12/44] fix: force_no_eff only affects the workflow it is
 deduced for

---
 appletree/component.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/appletree/component.py b/appletree/component.py
index de7c5d6..6ce6a56 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -424,13 +424,12 @@ class ComponentSim(Component):
             data_names.remove("eff")
         if not force_no_eff:
             data_names += ["eff"]
-        else:
-            # track status of component
-            self.force_no_eff = True
 
         dependencies = self.dependencies_deduce(data_names, nodep_data_name=nodep_data_name)
         self.dependencies_simplify(dependencies)
         self.flush_source_code(data_names, func_name, nodep_data_name)
+        # track status of component
+        self.force_no_eff = force_no_eff
 
     def compile(self):
         """Build simulation function and cache it to share._cached_functions."""
-- 
2.43.0


From 1cf49742aa8aa7086d4fc6374391e82137a17388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 13/44] fix: GPU memory fraction below 0.1 or equal to 1

---
 appletree/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/appletree/utils.py b/appletree/utils.py
index 49473d7..5dd9302 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -270,11 +270,10 @@ def set_gpu_memory_usage(fraction=0.3):
     See more on https://jax.readthedocs.io/en/latest/gpu_memory_allocation.html
 
     """
-    if fraction > 1:
-        fraction = 0.99
     if fraction <= 0:
         raise ValueError("fraction must be positive!")
-    os.environ["XLA_PYTHON_CLIENT_MEM_FRACTION"] = f".{int(fraction * 100):d}"
+    fraction = min(fraction, 0.99)
+    os.environ["XLA_PYTHON_CLIENT_MEM_FRACTION"] = f"{fraction:.4f}"
 
 
 @export
-- 
2.43.0


From 9b615a54b44ac0cbbc98542677db02e33970dc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 14/44] fix: extensions do not silently replace a module with
 the same name

---
 appletree/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/utils.py b/appletree/utils.py
index 5dd9302..d233eeb 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -573,7 +573,7 @@ def add_extensions(module1, module2, base, force=False):
 
     """
     # Assign the module2 as attribute of module1
-    is_exists = module2.__name__ in dir(module1)
+    is_exists = module2.__name__.split(".")[-1] in dir(module1)
     if is_exists and not force:
         raise ValueError(
             f"{module2.__name__} already existed in {module1.__name__}, "
-- 
2.43.0


From 123f8b2a05bb32860ba40f9d2b7f7ebb2930dbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 15/44] fix: plot autocorrelation of a fit with only one
 parameter

---
 appletree/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/appletree/plot.py b/appletree/plot.py
index cb0944a..0e5170e 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -352,8 +352,8 @@ class Plotter:
             axes.append(ax)
 
         # Set xlabels of the last two axes
-        axes[-1].set_xlabel("Number of iterations after burn-in")
-        axes[-2].set_xlabel("Number of iterations after burn-in")
+        for ax in axes[-2:]:
+            ax.set_xlabel("Number of iterations after burn-in")
 
         # Set legend
         handles, labels = axes[-1].get_legend_handles_labels()
-- 
2.43.0


From 0fa209a7343de704917cd29bceac81687d90a028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 16/44] fix: electrons are not lost where the gas gain is low

---
 appletree/plugins/detector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/appletree/plugins/detector.py b/appletree/plugins/detector.py
index 76ff662..16b154b 100644
--- a/appletree/plugins/detector.py
+++ b/appletree/plugins/detector.py
@@ -154,6 +154,7 @@ class S2PE(Plugin):
         pos_true = jnp.stack([x, y]).T
         gas_gain_relative = self.gas_gain_relative.apply(pos_true)
         extraction_eff = parameters["g2"] / (parameters["gas_gain"] * gas_gain_relative)
+        extraction_eff = jnp.clip(extraction_eff, 0, 1.0)
         key, num_electron_extracted = randgen.binomial(key, extraction_eff, num_electron_drifted)
 
         gas_gain = parameters["gas_gain"] * gas_gain_relative * s2_lce
-- 
2.43.0


From 870dd3d61fa6ec9a190399f32897e1b6aa83ef08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 17/44] fix: multiple_simulations_compile works without g4
 config

---
 appletree/component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/component.py b/appletree/component.py
index 6ce6a56..d9ac49a 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -113,7 +113,7 @@ class Component:
         limit of GPU."""
         results_pile = []
         for _ in range(times):
-            if _cached_configs["g4"] and self._use_mcinput:
+            if _cached_configs.get("g4") and self._use_mcinput:
                 if isinstance(_cached_configs["g4"], dict):
                     g4_file_name = _cached_configs["g4"][self.llh_name][0]
                     _cached_configs["g4"][self.llh_name] = [
-- 
2.43.0


From edc5590727884af80c055e4369d20aac7e7b9b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 18/44] fix: copied parameters do not share their setting

---
 appletree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/context.py b/appletree/context.py
index f2cec18..c6885e0 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -453,7 +453,7 @@ class Context:
             for k, v in likelihood["copy_parameters"].items():
                 # specify rate scale
                 # normalization factor, for AC & ER, etc.
-                self.par_config.update({k: self.par_config[v]})
+                self.par_config.update({k: copy.deepcopy(self.par_config[v])})
                 from_parameters.append(v)
                 needed_parameters.add(k)
             for k in likelihood["components"].keys():
-- 
2.43.0


From 5a977d430f437dccdc64c75ffde20131f64b2d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 19/44] fix: template of a likelihood with parameter alias

---
 appletree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/context.py b/appletree/context.py
index c6885e0..a80be2a 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -408,7 +408,7 @@ class Context:
             seed: random seed.
 
         """
-        parameters = self.get_post_parameters()
+        parameters = self[likelihood_name].replace_alias(self.get_post_parameters())
         key = randgen.get_key(seed=seed)
 
         key, result = self[likelihood_name][component_name].simulate(
-- 
2.43.0


From 59789073499d50cd7421ef48b503f15611be75ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:37 +0000
Subject: [PATCH 20/44] fix: several simulated components in the same
 likelihood

---
 appletree/component.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/appletree/component.py b/appletree/component.py
index d9ac49a..63f5030 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -381,13 +381,19 @@ class ComponentSim(Component):
         output = "key, " + "[" + ", ".join(data_names) + "]"
         code += f"{indent}return {output}\n"
 
+        # Components of the same likelihood share the namespace, but not the names in it
+        namespace = _cached_functions.get(self.llh_name, {})
+        if not namespace.keys().isdisjoint({func_name} | instances):
+            raise RuntimeError(
+                f"Function name {func_name} or component name {self.name} is already cached "
+                f"in likelihood {self.llh_name}. "
+                "If you want to overwrite it, please set another llh_name."
+            )
+
         self.code = code
         self.instances = instances
-
-        if func_name in _cached_functions[self.llh_name].keys():
-            warning = f"Function name {func_name} is already cached. "
-            warning += "Running compile() will overwrite it."
-            warn(warning)
+        # Reserve the names before they are compiled
+        _cached_functions[self.llh_name].update(dict.fromkeys({func_name} | instances))
 
     @property
     def code(self):
@@ -397,7 +403,8 @@ class ComponentSim(Component):
     @code.setter
     def code(self, code):
         self._code = code
-        _cached_functions[self.llh_name] = dict()
+        if self.llh_name not in _cached_functions:
+            _cached_functions[self.llh_name] = dict()
         self._compile = partial(exec, self.code, _cached_functions[self.llh_name])
 
     def deduce(
-- 
2.43.0


From 153c9f7d960df06fb43225372ec84660b83f2a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:37 +0000
Subject: [PATCH 21/44] fix: multi-output plugin does not overwrite the output
 of other plugins

---
 appletree/component.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/appletree/component.py b/appletree/component.py
index 63f5030..16b4716 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -374,7 +374,10 @@ class ComponentSim(Component):
         code += f"def {func_name}(key, {nodep_data_name}, parameters):\n"
 
         for work in self.worksheet:
-            provides = "key, " + ", ".join(work[1])
+            # Another plugin can be registered for some of the outputs of a multi-output plugin
+            provides = "key, " + ", ".join(
+                p if self._plugin_class_registry[p].__name__ == work[0] else "_" for p in work[1]
+            )
             depends_on = ", ".join(work[2])
             instance = work[0] + "_" + self.name
             code += f"{indent}{provides} = {instance}(key, parameters, {depends_on})\n"
-- 
2.43.0


From fc897da7b54865db9fffe66c3e523f8bebfe2bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 22/44] fix: 1D regular binning map honours its interpolation
 method

---
 appletree/config.py        |  6 ++++--
 appletree/interpolation.py | 19 +++++++++++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/appletree/config.py b/appletree/config.py
index a59f2c4..f1b3980 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -188,6 +188,10 @@ class Map(Config):
     }
 
     _REGBIN_INTERPOLATORS = {
+        (1, "IDW"): interpolation.map_interpolator_regular_binning_1d,
+        # In 1D, inverse distance weighting of the two neighbors is linear interpolation
+        (1, "LERP"): interpolation.map_interpolator_regular_binning_1d,
+        (1, "NN"): interpolation.map_interpolator_regular_binning_nearest_neighbor_1d,
         (2, "IDW"): interpolation.map_interpolator_regular_binning_2d,
         (2, "LERP"): interpolation.map_interpolator_regular_binning_bilinear_2d,
         (2, "NN"): interpolation.map_interpolator_regular_binning_nearest_neighbor_2d,
@@ -342,8 +346,6 @@ class Map(Config):
 
     def _get_regbin_interpolator(self, ndim):
         """Return the regular-binning interpolator for the given dimensionality."""
-        if ndim == 1:
-            return interpolation.map_interpolator_regular_binning_1d
         key = (ndim, self.method)
         try:
             return self._REGBIN_INTERPOLATORS[key]
diff --git a/appletree/interpolation.py b/appletree/interpolation.py
index 7d4ee3a..7030ea4 100644
--- a/appletree/interpolation.py
+++ b/appletree/interpolation.py
@@ -361,6 +361,25 @@ def map_interpolator_nearest_neighbor_1d(pos, ref_pos, ref_val):
     return val
 
 
+@export
+@jit
+def map_interpolator_regular_binning_nearest_neighbor_1d(
+    pos, ref_pos_lowers, ref_pos_uppers, ref_val
+):
+    """Nearest neighbor 1D interpolation.
+
+    A uniform mesh grid binning is assumed.
+        Args:
+            pos: array with shape (N,), positions at which the interp is calculated.
+            ref_pos_lowers: array with shape (1,), the lower edges of the binning on each dimension.
+            ref_pos_uppers: array with shape (1,), the upper edges of the binning on each dimension.
+            ref_val: array with shape (M1,), map values.
+
+    """
+    ref_pos = jnp.linspace(jnp.squeeze(ref_pos_lowers), jnp.squeeze(ref_pos_uppers), len(ref_val))
+    return map_interpolator_nearest_neighbor_1d(pos, ref_pos, ref_val)
+
+
 @export
 @jit
 def map_interpolator_regular_binning_nearest_neighbor_2d(
-- 
2.43.0


From 05418751860b5dc33185051003d64a264798fd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 23/44] fix: profile the plugins in the worksheet

---
 appletree/profiler.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/appletree/profiler.py b/appletree/profiler.py
index d18219b..4095719 100644
--- a/appletree/profiler.py
+++ b/appletree/profiler.py
@@ -105,11 +105,14 @@ def profile_component(
 
     total_time = 0.0
 
+    # Plugins can be overwritten for some of their outputs
+    plugin_classes = {p.__name__: p for p in component._plugin_class_registry.values()}
+
     for work in component.worksheet:
         plugin_name = work[0]
         provides = work[1]
 
-        plugin_class = component._plugin_class_registry[provides[0]]
+        plugin_class = plugin_classes[plugin_name]
         plugin_instance = plugin_class(component.llh_name)
 
         key, output_data, mean_time, std_time = profile_plugin(
@@ -121,7 +124,13 @@ def profile_component(
             n_runs=n_runs,
         )
 
-        data_store.update(output_data)
+        data_store.update(
+            {
+                k: v
+                for k, v in output_data.items()
+                if component._plugin_class_registry[k] is plugin_class
+            }
+        )
         total_time += mean_time
 
         result = {
-- 
2.43.0


From 52c5791aec6d5c040346a02c6f0e7ee68fdf1158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 24/44] fix: SigmaMap does not silently ignore its configured
 maps

---
 appletree/config.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/appletree/config.py b/appletree/config.py
index f1b3980..6e15a47 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -451,6 +451,11 @@ class SigmaMap(Config):
                     f"configs, find {existing} and {value}."
                 )
             _cached_configs[map_name][self.llh_name] = value
+        elif get_file_path(_cached_configs[map_name]) != get_file_path(value):
+            raise ValueError(
+                f"You give different values for {self.name} in "
+                f"configs, find {_cached_configs[map_name]} and {value}."
+            )
 
     def build(self, llh_name: Optional[str] = None):
         """Read maps."""
@@ -466,7 +471,8 @@ class SigmaMap(Config):
         sigmas = ["median", "lower", "upper"]
         for i, sigma in enumerate(sigmas):
             default = self._resolve_sigma_value(
-                _configs_default,
+                # Without llh_name the maps can only be configured by their default
+                _configs if self.llh_name is None else _configs_default,
                 i,
                 "default configuration",
             )
-- 
2.43.0


From 35ec788945ee10048677470de252a3f8f956b29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 25/44] fix: plot the maps of the plugins in the worksheet

---
 appletree/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/appletree/plot.py b/appletree/plot.py
index 0e5170e..b65e359 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -469,10 +469,10 @@ def _collect_maps(context):
 
             # Only iterate over plugins actually used in the
             # simulation (worksheet), not all registered plugins.
+            # Plugins can be overwritten for some of their outputs
+            plugin_classes = {p.__name__: p for p in component._plugin_class_registry.values()}
             for work in component.worksheet:
-                provides = work[1]
-                # Look up the plugin class via its first provides name
-                plugin_class = component._plugin_class_registry[provides[0]]
+                plugin_class = plugin_classes[work[0]]
                 # The configs of the class are shared by all likelihoods,
                 # only the ones of the instance are those used by the simulation
                 instances = _cached_functions.get(component.llh_name, {})
-- 
2.43.0


From e7af36737b6c38e97eada64cd632b473c925a062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 26/44] fix: on_sim normalization of fixed components and
 without energy

---
 appletree/component.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/appletree/component.py b/appletree/component.py
index 16b4716..67ef4a8 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -80,7 +80,9 @@ class Component:
 
     @property
     def _use_mcinput(self):
-        return "Bootstrap" in self._plugin_class_registry["energy"].__name__
+        # Fixed components have no plugin, and not all simulations start from energy
+        energy_plugin = getattr(self, "_plugin_class_registry", dict()).get("energy", None)
+        return energy_plugin is not None and "Bootstrap" in energy_plugin.__name__
 
     def simulate_hist(self, *args, **kwargs):
         """Hook for simulation with histogram output."""
-- 
2.43.0


From 6847c89c40d494bd7efaf3fb3de43f16b5ef942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:07 +0000
Subject: [PATCH 27/44] fix: keep the table of 2D and 3D interpolators as it
 was

---
 appletree/config.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/appletree/config.py b/appletree/config.py
index 6e15a47..ebac74f 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -187,11 +187,14 @@ class Map(Config):
         "LERP": interpolation.map_interpolator_linear_1d,
     }
 
-    _REGBIN_INTERPOLATORS = {
-        (1, "IDW"): interpolation.map_interpolator_regular_binning_1d,
+    _REGBIN_1D_INTERPOLATORS = {
         # In 1D, inverse distance weighting of the two neighbors is linear interpolation
-        (1, "LERP"): interpolation.map_interpolator_regular_binning_1d,
-        (1, "NN"): interpolation.map_interpolator_regular_binning_nearest_neighbor_1d,
+        "IDW": interpolation.map_interpolator_regular_binning_1d,
+        "LERP": interpolation.map_interpolator_regular_binning_1d,
+        "NN": interpolation.map_interpolator_regular_binning_nearest_neighbor_1d,
+    }
+
+    _REGBIN_INTERPOLATORS = {
         (2, "IDW"): interpolation.map_interpolator_regular_binning_2d,
         (2, "LERP"): interpolation.map_interpolator_regular_binning_bilinear_2d,
         (2, "NN"): interpolation.map_interpolator_regular_binning_nearest_neighbor_2d,
@@ -346,9 +349,10 @@ class Map(Config):
 
     def _get_regbin_interpolator(self, ndim):
         """Return the regular-binning interpolator for the given dimensionality."""
-        key = (ndim, self.method)
         try:
-            return self._REGBIN_INTERPOLATORS[key]
+            if ndim == 1:
+                return self._REGBIN_1D_INTERPOLATORS[self.method]
+            return self._REGBIN_INTERPOLATORS[(ndim, self.method)]
         except KeyError:
             raise ValueError(f"Unknown method {self.method} " f"for {ndim}D regular binning.")
 
-- 
2.43.0


From fbd9b4ad00e8940ff0fcd4ec7b6e5bd798c83f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:08 +0000
Subject: [PATCH 28/44] fix: single draw of TwoHalfNorm with python floats

---
 appletree/randgen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/appletree/randgen.py b/appletree/randgen.py
index 9dbfe87..1161486 100644
--- a/appletree/randgen.py
+++ b/appletree/randgen.py
@@ -554,7 +554,8 @@ class TwoHalfNorm:
         pos_half_prob = sigma_pos / (sigma_pos + sigma_neg)
 
         use_pos_half = np.random.uniform(size=size) < pos_half_prob
-        use_neg_half = ~use_pos_half
+        # ~ of a python bool, which is what a single draw can be, is not its negation
+        use_neg_half = np.logical_not(use_pos_half)
 
         n_sigma = np.abs(np.random.normal(size=size))
         offset = use_pos_half * n_sigma * sigma_pos - use_neg_half * n_sigma * sigma_neg
-- 
2.43.0


From 7d24e0509711f879a306e876cda163dc0ae33c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:24 +0000
Subject: [PATCH 29/44] fix: nearest neighbor far outside of the map is the
 closest edge

---
 appletree/interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/appletree/interpolation.py b/appletree/interpolation.py
index 7030ea4..0fa85ad 100644
--- a/appletree/interpolation.py
+++ b/appletree/interpolation.py
@@ -319,7 +319,8 @@ def map_interpolator_regular_binning_trilinear_3d(pos, ref_pos_lowers, ref_pos_u
 
 @jit
 def find_nearest_indices(x, y):
-    x = x[:, jnp.newaxis]
+    # Far outside, the distances to all y are the same within the floating-point precision
+    x = jnp.clip(x, jnp.min(y), jnp.max(y))[:, jnp.newaxis]
     differences = jnp.abs(x - y)
     indices = jnp.argmin(differences, axis=1)
     return indices
-- 
2.43.0


From 0413fbeac37dec011b849ae9d38eab76a1ad9263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:37 +0000
Subject: [PATCH 30/44] fix: equiprobable bins in the order (1, 0) are clipped
 on their own axis

---
 appletree/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/appletree/utils.py b/appletree/utils.py
index d233eeb..d35d70e 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -343,7 +343,7 @@ def get_equiprob_bins_2d(
     mask &= data[:, 1] > y_clip[0]
     mask &= data[:, 1] < y_clip[1]
 
-    x_bins, y_bins = GOFevaluation.utils.get_equiprobable_binning(
+    first_bins, second_bins = GOFevaluation.utils.get_equiprobable_binning(
         data[mask],
         n_partitions,
         order=order,
@@ -351,10 +351,11 @@ def get_equiprob_bins_2d(
         left=left,
     )
     # To be strict, clip the inf(s)
-    x_bins = np.clip(x_bins, *x_clip)
-    y_bins = np.clip(y_bins, *y_clip)
+    clips = (x_clip, y_clip)
+    first_bins = np.clip(first_bins, *clips[order[0]])
+    second_bins = np.clip(second_bins, *clips[order[1]])
 
-    return which_np.array(x_bins), which_np.array(y_bins)
+    return which_np.array(first_bins), which_np.array(second_bins)
 
 
 @export
-- 
2.43.0


From 9258efe04b528b9e97e2e5e91a8254c162e30893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 31/44] fix: continuing an in-memory fit keeps its recorded
 chain

---
 appletree/context.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/appletree/context.py b/appletree/context.py
index a80be2a..11ba80f 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -204,7 +204,11 @@ class Context:
 
     def _set_backend(self, nwalkers=100, read_only=True, reset=False):
         if self.backend_h5 is None:
-            self._backend = None
+            # Without file the recorded chain only exists in the sampler
+            backend = getattr(getattr(self, "sampler", None), "backend", None)
+            keep = not reset and type(backend) is emcee.backends.Backend and backend.initialized
+            keep = keep and backend.shape == (nwalkers, self._ndim)
+            self._backend = backend if keep else None
             print("With no backend")
         else:
             self._backend = emcee.backends.HDFBackend(self.backend_h5, read_only=read_only)
-- 
2.43.0


From c81bd6e40ad5ba06b81f441390914fcea9b08068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:22 +0000
Subject: [PATCH 32/44] fix: lineage of SigmaMap includes its scaler

---
 appletree/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/appletree/config.py b/appletree/config.py
index ebac74f..8bdcebf 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -575,6 +575,7 @@ class SigmaMap(Config):
             "median": self.median.lineage,
             "lower": self.lower.lineage,
             "upper": self.upper.lineage,
+            "required_parameter": self._required_parameter,
         }
 
 
-- 
2.43.0


From 4030d7782cf721891e0e4f49d4e211926b926a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:35 +0000
Subject: [PATCH 33/44] fix: lineage of components includes the floor of their
 histograms

---
 appletree/component.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/appletree/component.py b/appletree/component.py
index 67ef4a8..2b9b7c5 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -592,6 +592,7 @@ class ComponentSim(Component):
         return {
             "rate_name": self.rate_name,
             "norm_type": self.norm_type,
+            "add_eps_to_hist": self.add_eps_to_hist,
             "code": self.code,
             "instances": dict(
                 zip(
@@ -650,6 +651,7 @@ class ComponentFixed(Component):
         return {
             "rate_name": self.rate_name,
             "norm_type": self.norm_type,
+            "add_eps_to_hist": self.add_eps_to_hist,
             "bins": tuple(b.tolist() for b in self.bins) if self.bins is not None else self.bins,
             "bins_type": self.bins_type,
             "file_path": (
-- 
2.43.0


From 6e3049657a391004c6253d54c892ad60deee6af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 34/44] fix: ER recombination fluctuation does not overflow at
 high fields

---
 appletree/plugins/er_nestv2.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/appletree/plugins/er_nestv2.py b/appletree/plugins/er_nestv2.py
index 54d18ee..dbdb0e9 100644
--- a/appletree/plugins/er_nestv2.py
+++ b/appletree/plugins/er_nestv2.py
@@ -191,10 +191,9 @@ class OmegaER(Plugin):
     @partial(jit, static_argnums=(0,))
     def simulate(self, key, parameters, elecFrac, recombProb, Ni, _Ne, _Nph, field):
         # was A in previous version, be advised
-        ampl = (
-            0.086036
-            + (parameters["A_er"] - 0.086036) / (1.0 + (field / 295.2) ** 251.6) ** 0.0069114
-        )
+        # (1 + (field / 295.2) ** 251.6) ** 0.0069114, which overflows in single precision
+        field_factor = jnp.exp(0.0069114 * jnp.logaddexp(0.0, 251.6 * jnp.log(field / 295.2)))
+        ampl = 0.086036 + (parameters["A_er"] - 0.086036) / field_factor
         sqrt2 = jnp.sqrt(2.0)
 
         # Skewd normal normalization
-- 
2.43.0


From 8e49cde1529a2a08f74c9ab1dae90666edfaf295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 35/44] fix: NR light yield is zero at zero energy

---
 appletree/plugins/nestv2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/appletree/plugins/nestv2.py b/appletree/plugins/nestv2.py
index 2d5b175..89d702a 100644
--- a/appletree/plugins/nestv2.py
+++ b/appletree/plugins/nestv2.py
@@ -126,7 +126,8 @@ class LyNR(Plugin):
     def simulate(self, key, parameters, energy, _Nq, charge_yield):
         light_yield = _Nq / energy - charge_yield
         light_yield *= 1 - 1 / (1 + (energy / parameters["theta"]) ** parameters["iota"])
-        light_yield = jnp.clip(light_yield, 0, jnp.inf)
+        # energy can be clipped to 0, where the ratio above is not defined
+        light_yield = jnp.where(energy > 0, jnp.clip(light_yield, 0, jnp.inf), 0.0)
         return key, light_yield
 
 
-- 
2.43.0


From 72f30af2275560f50536d57a61a56cb62993c14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:28 +0000
Subject: [PATCH 36/44] fix: figures of maps do not overwrite each other when
 saved

---
 appletree/plot.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/appletree/plot.py b/appletree/plot.py
index b65e359..c6ef345 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -791,13 +791,23 @@ def _plot_config(config, map_collapse):
     return None
 
 
-def _save_figure(fig, config, save_path, fmt):
-    """Save a figure to disk in each requested format."""
+def _save_figure(fig, config, save_path, fmt, saved=None):
+    """Save a figure to disk in each requested format.
+
+    Names in ``saved`` are already used by other figures.
+
+    """
     if isinstance(config, SigmaMap):
         file_path = config.median.file_path
     else:
         file_path = config.file_path
     stem = os.path.splitext(os.path.basename(file_path))[0]
+    if saved is not None:
+        base, i = stem, 0
+        while stem in saved:
+            i += 1
+            stem = f"{base}_{i}"
+        saved.add(stem)
     for f in fmt:
         fig.savefig(os.path.join(save_path, f"{stem}.{f}"))
 
@@ -845,6 +855,7 @@ def plot_maps(context, collapse=None, save=False, save_path=".", fmt="png"):
         os.makedirs(save_path, exist_ok=True)
     if isinstance(fmt, str):
         fmt = [fmt]
+    saved = set()
 
     for config, names in collected.values():
         map_collapse = _lookup_collapse(collapse, names)
@@ -854,7 +865,7 @@ def plot_maps(context, collapse=None, save=False, save_path=".", fmt="png"):
         for fig_ax in fig_ax_list:
             figures.append(fig_ax)
             if save:
-                _save_figure(fig_ax[0], config, save_path, fmt)
+                _save_figure(fig_ax[0], config, save_path, fmt, saved)
 
     return figures
 
-- 
2.43.0


From 22e29965937dd87c8e9e46e98b095b1405d171f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 37/44] fix: reject a config specified twice in the same
 takes_config

---
 appletree/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/appletree/config.py b/appletree/config.py
index 8bdcebf..af94995 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -46,6 +46,8 @@ def takes_config(*configs):
         for config in configs:
             if not isinstance(config, Config):
                 raise RuntimeError("Specify config options by Config objects")
+            if config.name in result:
+                raise RuntimeError(f"Attempt to specify config {config.name} twice")
             config.taken_by = plugin_class.__name__
             result[config.name] = config
 
-- 
2.43.0


From 5c581c8a1cb59c264fbf01e681ab6b449645eff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 38/44] fix: reject plugins with simulation arguments which are
 not dependencies

---
 appletree/plugin.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/appletree/plugin.py b/appletree/plugin.py
index 6b8187a..ede7b47 100644
--- a/appletree/plugin.py
+++ b/appletree/plugin.py
@@ -75,7 +75,8 @@ class Plugin:
     def sanity_check(self):
         """Check the consistency between ``depends_on``, ``provides`` and in(out)put of
         ``self.simulate``"""
-        arguments = inspect.getfullargspec(self.simulate)[0]
+        spec = inspect.getfullargspec(self.simulate)
+        arguments = spec.args
         if arguments[1] != "key":
             mesg = f"First argument of {self.__class__.__name__}"
             mesg += ".simulate should be 'key'."
@@ -84,6 +85,11 @@ class Plugin:
             mesg = f"Second argument of {self.__class__.__name__}"
             mesg += ".simulate should be 'parameters'."
             raise ValueError(mesg)
+        n_required = len(arguments) - len(spec.defaults or ())
+        if n_required > len(self.depends_on) + 3:
+            mesg = f"{self.__class__.__name__}.simulate has arguments which are not in depends_on. "
+            mesg += f"Plugin {self.__class__.__name__} is insane, check dependency!"
+            raise ValueError(mesg)
         for i, depend in enumerate(self.depends_on, start=3):
             if arguments[i] != depend:
                 mesg = f"{i}th argument of {self.__class__.__name__}"
-- 
2.43.0


From 17c1cdfc7d6fd4a6fcbe20752db127b1f3f9e8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 39/44] fix: GPU memory fraction is not rounded

---
 appletree/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/appletree/utils.py b/appletree/utils.py
index d35d70e..45de237 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -272,8 +272,7 @@ def set_gpu_memory_usage(fraction=0.3):
     """
     if fraction <= 0:
         raise ValueError("fraction must be positive!")
-    fraction = min(fraction, 0.99)
-    os.environ["XLA_PYTHON_CLIENT_MEM_FRACTION"] = f"{fraction:.4f}"
+    os.environ["XLA_PYTHON_CLIENT_MEM_FRACTION"] = str(min(float(fraction), 0.99))
 
 
 @export
-- 
2.43.0


From 7fc9fdc218900dede1ef265bd7f6fe1b302bb972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 40/44] fix: skip base classes with a private name in
 extensions

---
 appletree/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/utils.py b/appletree/utils.py
index 45de237..bdd5848 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -599,7 +599,7 @@ def _add_extension(module, subclass, base, force=False):
     allowed class name covering! Please change the name of your class when Error shows itself.
 
     """
-    if getattr(subclass, "_" + subclass.__name__ + "__is_base", False):
+    if getattr(subclass, "_" + subclass.__name__.lstrip("_") + "__is_base", False):
         return
 
     if issubclass(subclass, base) and subclass != base:
-- 
2.43.0


From 07b702cfc2dcf497a8d54aadeb1a6b2a15e9dbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 41/44] fix: integrate integers without overflow

---
 appletree/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/appletree/utils.py b/appletree/utils.py
index bdd5848..38fe58e 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -635,8 +635,8 @@ def cumulative_integrate_midpoint(x, y):
         y: 1D array-like, with the same length as x.
 
     """
-    x = np.array(x)
-    y = np.array(y)
+    x = np.array(x, dtype=float)
+    y = np.array(y, dtype=float)
     dx = x[1:] - x[:-1]
     x_mid = 0.5 * (x[1:] + x[:-1])
     y_mid = 0.5 * (y[1:] + y[:-1])
-- 
2.43.0


From e0392a6371a17d564be9e5671c2f0216c9dbb32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:20 +0000
Subject: [PATCH 42/44] fix: label plugins with their data names at every depth
 of the graph

---
 appletree/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/appletree/utils.py b/appletree/utils.py
index 38fe58e..b64e489 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -556,6 +556,7 @@ def add_plugins_to_graph_tree(
                 graph_tree,
                 plugin.depends_on,
                 _seen,
+                with_data_names,
             )
         _seen.append(plugin_name)
     return graph_tree, _seen
-- 
2.43.0


From 7cd93d748f2e22a3ad1acf8ed5195c8b166e70c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:20 +0000
Subject: [PATCH 43/44] fix: keep the lines of a string when adding spaces

---
 appletree/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/utils.py b/appletree/utils.py
index b64e489..f66bf50 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -444,7 +444,7 @@ def add_spaces(x):
     correctly."""
     y = ""
     if isinstance(x, str):
-        x = x.split("\n")
+        x = x.splitlines(keepends=True)
     for q in x:
         y += "    " + q
     return y
-- 
2.43.0


From 3aa34ff2653ff0620a3d80daa34fc6de2a8fa433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:18 +0000
Subject: [PATCH 44/44] fix: maps with uncertainty that are configured do not
 need a default

---
 appletree/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/appletree/config.py b/appletree/config.py
index af94995..6b186b0 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -467,7 +467,8 @@ class SigmaMap(Config):
         """Read maps."""
         self.llh_name = llh_name
         _configs = self.get_configs()
-        _configs_default = self.get_default()
+        # The default is not needed if the maps are configured
+        _configs_default = _configs if self.default is OMITTED else self.default
 
         if isinstance(_configs, list) and len(_configs) > 4:
             raise ValueError(f"You give too much information in {self.name}'s configs.")
-- 
2.43.0

