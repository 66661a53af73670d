From 1c90baedadc45a5c88059e6e979b4bd818103204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:20 +0000
Subject: [PATCH 01/47] fix: write the population probability under the name it
 is read back from

---
 popsynth/population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 2d3c03f..fcc3860 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -615,7 +615,7 @@ class Population(object):
 
         if self._probability is not None:
             f.create_dataset(
-                "probabilty", data=self._probability, compression="gzip"
+                "probability", data=self._probability, compression="gzip"
             )
 
         f.create_dataset(
-- 
2.43.0


From 781d738853b4c140247c2f779923aa64f89ad7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:20 +0000
Subject: [PATCH 02/47] fix: restore population name and forms from HDF5 as the
 text they were

---
 popsynth/population.py       | 21 +++++++++++++++------
 popsynth/utils/hdf5_utils.py | 19 +++++++++++++++++++
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index fcc3860..cdc208b 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -16,6 +16,7 @@ from popsynth.utils.array_to_cmap import array_to_cmap
 from popsynth.utils.hdf5_utils import (
     clean_graph_dict,
     fill_graph_dict,
+    read_text_attribute,
     recursively_load_dict_contents_from_group,
     recursively_save_dict_contents_to_group,
 )
@@ -599,15 +600,23 @@ class Population(object):
                     k, data=np.array([v]), compression="gzip"
                 )
 
-            f.attrs["lf_form"] = np.string_(self._lf_form)
+            if self._lf_form is not None:
+
+                f.attrs["lf_form"] = str(self._lf_form)
 
             f.attrs["has_lf"] = True
 
         else:
             f.attrs["has_lf"] = False
 
-        f.attrs["name"] = np.string_(self._name)
-        f.attrs["spatial_form"] = np.string_(self._spatial_form)
+        if self._name is not None:
+
+            f.attrs["name"] = str(self._name)
+
+        if self._spatial_form is not None:
+
+            f.attrs["spatial_form"] = str(self._spatial_form)
+
         f.attrs["flux_sigma"] = self._flux_sigma
         f.attrs["n_model"] = self._n_model
         f.attrs["r_max"] = self._r_max
@@ -723,7 +732,7 @@ class Population(object):
                 for key in f["lf_params"].keys():
 
                     lf_params[key] = f["lf_params"][key][()][0]
-                lf_form = str(f.attrs["lf_form"])
+                lf_form = read_text_attribute(f, "lf_form")
 
             else:
 
@@ -739,9 +748,9 @@ class Population(object):
         n_model = f.attrs["n_model"]
         r_max = f.attrs["r_max"]
         seed = int(f.attrs["seed"])
-        name = f.attrs["name"]
+        name = read_text_attribute(f, "name")
 
-        spatial_form = str(f.attrs["spatial_form"])
+        spatial_form = read_text_attribute(f, "spatial_form")
 
         luminosities = f["luminosities"][()]
         distances = f["distances"][()]
diff --git a/popsynth/utils/hdf5_utils.py b/popsynth/utils/hdf5_utils.py
index 828f8c2..1a6fe99 100644
--- a/popsynth/utils/hdf5_utils.py
+++ b/popsynth/utils/hdf5_utils.py
@@ -99,6 +99,25 @@ def recursively_load_dict_contents_from_group(h5file, path):
     return ans
 
 
+def read_text_attribute(h5file, name):
+    """
+    Read a text attribute from HDF5.
+
+    :param h5file: HDF5 file or group
+    :param name: Name of the attribute
+    :returns: The text or None if the attribute was not stored
+    """
+    value = h5file.attrs.get(name)
+
+    if isinstance(value, bytes):
+
+        # files written with byte strings
+
+        value = value.decode()
+
+    return value
+
+
 def fill_graph_dict(graph_dict, fill_value=1):
     """
     Fill a networkx graph dict so that it
-- 
2.43.0


From 2261ff607ab06b9afb30a372138ba5acc4e80a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:20 +0000
Subject: [PATCH 03/47] fix: reload the population graph as a directed graph

---
 popsynth/population.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index cdc208b..b9883c6 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -801,7 +801,8 @@ class Population(object):
         graph = nx.from_dict_of_dicts(
             clean_graph_dict(
                 recursively_load_dict_contents_from_group(f, "graph")
-            )
+            ),
+            create_using=nx.DiGraph,
         )
 
         pop_synth = recursively_load_dict_contents_from_group(f, "popsynth")
-- 
2.43.0


From 0e7e5d99b585b8d5f53415675594a42901b51aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 04/47] fix: from_dict does not alter the dictionary it is
 given

---
 popsynth/population_synth.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 85465c1..9e90976 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -549,6 +549,10 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             for obj_name, v in input["auxiliary samplers"].items():
 
+                # do not alter the input
+
+                v = dict(v)
+
                 # first we extract the required info
 
                 sampler_name = v.pop("type")
-- 
2.43.0


From 0c1bfc5a5f3f310e4af419a45fcdb129394e7321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 05/47] fix: from_dict sets inherited parameters of auxiliary
 selections

---
 popsynth/population_synth.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 9e90976..ce18924 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -692,9 +692,13 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                     for k, v in params.items():
 
-                        if k in selector.__class__.__dict__:
+                        for x in selector.__class__.mro():
 
-                            setattr(selector, k, float(v))
+                            if k in x.__dict__:
+
+                                setattr(selector, k, float(v))
+
+                                break
 
                     selector._use_obs_value = True
 
-- 
2.43.0


From 3e1021eb864a30a2205c0018bc3f0bc0c288d5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 06/47] fix: to_dict stores the type of the derived luminosity
 sampler

---
 popsynth/population_synth.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index ce18924..43713ad 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -302,7 +302,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             tmp = {}
 
-            tmp["type"] = self._derived_luminosity_sampler.name
+            tmp[
+                "type"
+            ] = self._derived_luminosity_sampler._auxiliary_sampler_name
             tmp["observed"] = self._derived_luminosity_sampler._is_observed
 
             for k2, v2 in self._derived_luminosity_sampler.truth.items():
-- 
2.43.0


From 98d1a77152b76b7dca039591ce117184f05ffdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 07/47] fix: write_to keeps the order in which the samplers are
 drawn

---
 popsynth/population_synth.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 43713ad..979f5f2 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -196,6 +196,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 stream=f,
                 data=self.to_dict(),
                 default_flow_style=False,
+                sort_keys=False,
                 Dumper=yaml.SafeDumper,
             )
 
-- 
2.43.0


From 6d5b2b0ce19308cbac8d0c2b26ca220845a2c7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 08/47] fix: keep the order of dictionaries stored in HDF5

---
 popsynth/utils/hdf5_utils.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/popsynth/utils/hdf5_utils.py b/popsynth/utils/hdf5_utils.py
index 1a6fe99..a99cdc2 100644
--- a/popsynth/utils/hdf5_utils.py
+++ b/popsynth/utils/hdf5_utils.py
@@ -13,6 +13,12 @@ def recursively_save_dict_contents_to_group(h5file, path, dic: Dict[Any, Any]):
     :param dic: Dictionary to save
     :type dic: Dict[Any, Any]
     """
+    if path not in h5file:
+
+        # keep the order of the dictionary
+
+        h5file.create_group(path, track_order=True)
+
     for key, item in dic.items():
 
         if isinstance(item, list):
@@ -57,9 +63,11 @@ def recursively_save_dict_contents_to_group(h5file, path, dic: Dict[Any, Any]):
 
                 h5file[path + "/" + key] = "FILL_VALUE"
 
-            recursively_save_dict_contents_to_group(
-                h5file, path + "/" + key + "/", item
-            )
+            else:
+
+                recursively_save_dict_contents_to_group(
+                    h5file, path + "/" + key, item
+                )
         else:
             raise ValueError("Cannot save %s type" % type(item))
 
-- 
2.43.0


From a09237f909c9038792c002afb55b917fcf2e05bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 09/47] fix: from_dict does not depend on the order or presence
 of is_rate

---
 popsynth/population_synth.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 979f5f2..40d8ac1 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -390,7 +390,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         tmp = input["spatial distribution"]
 
-        sd_name = list(tmp.keys())[0]
+        sd_name = [k for k in tmp.keys() if k != "is_rate"][0]
 
         spatial_distribution: SpatialDistribution = distribution_registry[
             sd_name
@@ -410,9 +410,11 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         if isinstance(spatial_distribution, CosmologicalDistribution):
 
-            spatial_distribution._is_rate = tmp["is_rate"]
+            if "is_rate" in tmp:
 
-        seed: int = input["seed"]
+                spatial_distribution._is_rate = bool(tmp["is_rate"])
+
+        seed: int = int(input["seed"])
 
         # create the poopulation synth
 
@@ -559,7 +561,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 # first we extract the required info
 
                 sampler_name = v.pop("type")
-                is_observed = v.pop("observed")
+                is_observed = bool(v.pop("observed"))
 
                 # now we extract the selection
                 # and secondary if they are there
-- 
2.43.0


From 056ffc353180e58e3e4417d065b226fd668822d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 10/47] fix: draw surveys in which no detected object has a
 known distance

---
 popsynth/population_synth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 40d8ac1..0b1bcd6 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1368,13 +1368,13 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         log.info(f"Detected {len(known_distances)} distances")
 
-        if global_selection.n_selected > 0:
+        if len(known_distances) > 0:
 
             log.info(
                 f"Detected {global_selection.n_selected} objects out to a distance of {max(known_distances):.2f}"
             )
 
-        else:
+        elif global_selection.n_selected == 0:
 
             log.warning("No Objects detected")
 
-- 
2.43.0


From 094fd245303899820197ea3d7785975d1ed9906f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 11/47] fix: sub-populations keep the known distances and the
 population synth

---
 popsynth/population.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index b9883c6..157e8f3 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -877,25 +877,22 @@ class Population(object):
 
             new_aux = None
 
-        itr = 0
-        known_distances = []
-        known_distance_idx = []
-        unknown_distance_idx = []
+        # distances are only known for the selected objects
+        # and are indexed by their order in the selection
 
-        for i, s in enumerate(selection):
-
-            if s:
-
-                if i in self._known_distances:
-
-                    known_distances.append(self._distances[i])
-                    known_distance_idx.append(itr)
+        if observed:
 
-                else:
+            known_distances = np.array(self._known_distances)
+            known_distance_idx = np.array(self._known_distance_idx, dtype=int)
+            unknown_distance_idx = np.array(
+                self._unknown_distance_idx, dtype=int
+            )
 
-                    unknown_distance_idx.append(itr)
+        else:
 
-                itr += 1
+            known_distances = np.array([])
+            known_distance_idx = np.array([], dtype=int)
+            unknown_distance_idx = np.arange(sum(selection))
 
         if self._probability is not None:
 
@@ -908,9 +905,9 @@ class Population(object):
         return Population(
             luminosities=_selector(self._luminosities),
             distances=_selector(self._distances),
-            known_distances=np.array(known_distances),
-            known_distance_idx=np.array(known_distance_idx),
-            unknown_distance_idx=np.array(unknown_distance_idx),
+            known_distances=known_distances,
+            known_distance_idx=known_distance_idx,
+            unknown_distance_idx=unknown_distance_idx,
             fluxes=_selector(self._fluxes).latent,
             flux_obs=_selector(self._fluxes),
             selection=np.ones(sum(selection), dtype=bool),
@@ -929,6 +926,7 @@ class Population(object):
             graph=self._graph,
             theta=_selector(self._theta),
             phi=_selector(self._phi),
+            pop_synth=self._pop_synth,
             probability=probability,
         )
 
-- 
2.43.0


From 35f18f3b8fc87d0366ebd197d127ee9a0a7bf73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 12/47] fix: selections of selected SimulatedVariables are
 boolean

---
 popsynth/simulated_variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index d716fdf..81e0e12 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -83,7 +83,7 @@ class SimulatedVariable(np.ndarray):
         selected = self.view(np.ndarray)[self._selection]
         selected_latent = self._latent_values[self._selection]
 
-        new_selection = np.ones_like(selected)
+        new_selection = np.ones_like(selected, dtype=bool)
 
         return SimulatedVariable(selected, selected_latent, new_selection)
 
@@ -96,7 +96,7 @@ class SimulatedVariable(np.ndarray):
         non_selected = self.view(np.ndarray)[~self._selection]
         non_selected_latent = self._latent_values[~self._selection]
 
-        new_selection = np.zeros_like(non_selected)
+        new_selection = np.zeros_like(non_selected, dtype=bool)
 
         return SimulatedVariable(
             non_selected, non_selected_latent, new_selection
-- 
2.43.0


From f996766b1b34a39f5d32f52caf13f584c26c7ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:46 +0000
Subject: [PATCH 13/47] fix: truncate the log10 normal sampler at log10 of its
 lower bound

---
 popsynth/aux_samplers/trunc_lognormal_aux_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py b/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
index 7c54007..affd06d 100644
--- a/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
+++ b/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
@@ -119,7 +119,7 @@ class TruncatedLog10NormalAuxSampler(AuxiliarySampler):
         if self.lower == 0:
             a = stats.norm.ppf(1e-5,loc=self.mu,scale=self.tau)
         else:
-            a = np.log(self.lower)
+            a = np.log10(self.lower)
 
         b = np.log10(self.upper)
 
-- 
2.43.0


From 4695bdcb36c42ba64a9f20d9ff78876e95579bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:46 +0000
Subject: [PATCH 14/47] fix: in-place operations on SimulatedVariables update
 observed and latent values

---
 popsynth/simulated_variable.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index 81e0e12..acc0c19 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -155,8 +155,20 @@ class SimulatedVariable(np.ndarray):
                 else:
                     out_args.append(output)
             kwargs['out'] = tuple(out_args)
+
+            # the latent results must not be written over
+            # the observed results
+
+            latent_kwargs = dict(kwargs)
+            latent_kwargs['out'] = tuple(
+                np.array(output._latent_values)
+                if isinstance(output, SimulatedVariable)
+                else (None if output is None else np.array(output))
+                for output in outputs
+            )
         else:
             outputs = (None,) * ufunc.nout
+            latent_kwargs = kwargs
 
         info = {}
         if in_no:
@@ -164,12 +176,19 @@ class SimulatedVariable(np.ndarray):
         if out_no:
             info['outputs'] = out_no
 
-        results = super().__array_ufunc__(ufunc, method, *args, **kwargs)
+        if method == 'at' and isinstance(inputs[0], SimulatedVariable):
+
+            latent_args[0] = np.array(latent_args[0])
+
+        # the observed and latent values can share the same memory
+        # so compute the latent results before anything is overwritten
 
         latent_results = super().__array_ufunc__(
-            ufunc, method, *latent_args, **kwargs
+            ufunc, method, *latent_args, **latent_kwargs
         )
 
+        results = super().__array_ufunc__(ufunc, method, *args, **kwargs)
+
         if results is NotImplemented:
             return NotImplemented
 
@@ -179,10 +198,8 @@ class SimulatedVariable(np.ndarray):
         if method == 'at':
             if isinstance(inputs[0], SimulatedVariable):
 
-                print("oh shit")
+                inputs[0]._latent_values = latent_args[0]
 
-                pass
-            #                inputs[0].info = info
             return
 
         if ufunc.nout == 1:
@@ -211,6 +228,10 @@ class SimulatedVariable(np.ndarray):
 
                 out = output
 
+                if isinstance(output, SimulatedVariable):
+
+                    output._latent_values = latent_result
+
             final_results.append(out)
 
         results = tuple(final_results)
-- 
2.43.0


From 3544bb127fcf5d80833625616fd4ce0da45cf2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:22 +0000
Subject: [PATCH 15/47] fix: allow statistics such as the standard deviation of
 SimulatedVariables

---
 popsynth/simulated_variable.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index acc0c19..17e6b4f 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -118,7 +118,7 @@ class SimulatedVariable(np.ndarray):
 
         obs = self.view(np.ndarray).__getitem__(item)
 
-        if not isinstance(obs, np.ndarray):
+        if not isinstance(obs, np.ndarray) or obs.ndim == 0:
 
             return obs
 
@@ -214,7 +214,12 @@ class SimulatedVariable(np.ndarray):
 
             if output is None:
 
-                if isinstance(result, np.ndarray):
+                # reductions can keep a dimension, but
+                # they are no longer one value per object
+
+                if isinstance(result, np.ndarray) and (
+                    np.shape(result)[:1] == np.shape(self._selection)[:1]
+                ):
 
                     out = SimulatedVariable(
                         result, latent_result, self._selection
-- 
2.43.0


From 6a0bed7f32044ea405a0eb390a3a2ca0e9f7845e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 16/47] fix: drawing a survey again resamples everything
 attached to the synth

---
 popsynth/population_synth.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 0b1bcd6..df631d2 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -948,6 +948,28 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         return log_fobs
 
+    def _reset_draws(self) -> None:
+        """
+        Reset the attached samplers and selections
+        so that they can be drawn again.
+        """
+
+        for k, v in self._auxiliary_observations.items():
+
+            v.reset()
+
+        if self._derived_luminosity_sampler is not None:
+
+            self._derived_luminosity_sampler.reset()
+
+        self._flux_selector.reset()
+
+        self._distance_selector.reset()
+
+        if self._spatial_selector is not None:
+
+            self._spatial_selector.reset()
+
     def draw_survey(
         self,
         flux_sigma: Optional[float] = None,
@@ -971,6 +993,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
         :rtype: :class:`Population`
         """
 
+        # make sure that nothing is left over from a previous survey
+        self._reset_draws()
+
         # this stores all the "true" population values from all the samplers
         truth = dict()  # type: dict
 
-- 
2.43.0


From 19b62201dbb78f2bdc99abdd9c237fc229600b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 17/47] fix: nested secondary samplers receive luminosities and
 record their truth

---
 popsynth/auxiliary_sampler.py | 18 ++++++++++++++++++
 popsynth/population_synth.py  |  8 ++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index 5de5d2e..d2ddfac 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -549,6 +549,24 @@ class AuxiliarySampler(
 
         return recursive_secondaries
 
+    def get_all_secondary_samplers(self) -> SamplerDict:
+        """
+        Get the secondary samplers at every level.
+
+        :returns: Dict of samplers
+        :rtype: :class:`SamplerDict`
+        """
+
+        all_secondaries = {}  # type: SamplerDict
+
+        for k, v in self._secondary_samplers.items():
+
+            all_secondaries.update(v.get_all_secondary_samplers())
+
+            all_secondaries[v.name] = v
+
+        return all_secondaries
+
     @property
     def secondary_samplers(self) -> SamplerDict:
         """
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index df631d2..961628f 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1196,6 +1196,10 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                 truth[v2.name] = v2.truth
 
+                for k3, v3 in v2.get_all_secondary_samplers().items():
+
+                    truth[v3.name] = v3.truth
+
         else:
 
             luminosities = self.luminosity_distribution.draw_luminosity(
@@ -1235,7 +1239,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
             # also set luminosities and distances to secondaries
             # as needed
 
-            for k2, v2 in v.secondary_samplers.items():
+            for k2, v2 in v.get_all_secondary_samplers().items():
 
                 if v2.uses_luminosity:
 
@@ -1264,7 +1268,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             # collect the secondary values
 
-            for k2, v2 in v.secondary_samplers.items():
+            for k2, v2 in v.get_all_secondary_samplers().items():
 
                 # store the secondary truths
 
-- 
2.43.0


From aca3be4a210e48f172e138c48b6c2eefe8231d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 18/47] fix: the graph is rebuilt for each population and has
 all dependencies

---
 popsynth/auxiliary_sampler.py |  2 +-
 popsynth/population_synth.py  | 20 ++++++++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index d2ddfac..0a1d6a6 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -483,7 +483,7 @@ class AuxiliarySampler(
 
                     if v.uses_distance:
 
-                        self._graph.add_edge(spatial_distribution.name, k)
+                        graph.add_edge(spatial_distribution.name, k)
 
                 recursive_secondaries += v.get_secondary_properties(
                     graph, k, spatial_distribution
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 961628f..9a83c7f 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1545,6 +1545,13 @@ class PopulationSynth(object, metaclass=ABCMeta):
         Builds the graph for all the samplers.
         """
 
+        # start from an empty graph so that nothing is left over
+        # and that the graph of a population is its own
+
+        self._graph = nx.DiGraph()  # type: nx.Digraph
+
+        self._graph.add_node(self._spatial_distribution.name)
+
         # first check out the luminosity sampler
 
         self._graph.add_node("obs_flux", observed=True)
@@ -1572,6 +1579,15 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 self._graph.add_node(k2)
                 self._graph.add_edge(k2, self._derived_luminosity_sampler.name)
 
+                if v2.uses_distance:
+
+                    self._graph.add_edge(self._spatial_distribution.name, k2)
+
+                if v2.observed:
+
+                    self._graph.add_node(v2.obs_name, observed=True)
+                    self._graph.add_edge(k2, v2.obs_name)
+
                 # pass the graph and the primary
 
                 _ = v2.get_secondary_properties(
@@ -1596,9 +1612,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 self._graph.add_node(v.obs_name, observed=False)
                 self._graph.add_edge(k, v.obs_name)
 
-                if v.uses_distance:
+            if v.uses_distance:
 
-                    self._graph.add_edge(self._spatial_distribution.name, k)
+                self._graph.add_edge(self._spatial_distribution.name, k)
 
             for k2, v2 in v.secondary_samplers.items():
 
-- 
2.43.0


From ded773c72298aa01346eb50c710adbd7dbff21a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 19/47] fix: a population does not change with the synth that
 produced it

---
 popsynth/population_synth.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 9a83c7f..bd62bc3 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1412,7 +1412,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
         lf_form = None
         if self._luminosity_distribution is not None:
 
-            lf_params = self._luminosity_distribution.params
+            lf_params = dict(self._luminosity_distribution.params)
             lf_form = self._luminosity_distribution.form
 
         # if distance_probability is None:
@@ -1431,8 +1431,8 @@ class PopulationSynth(object, metaclass=ABCMeta):
             r_max=self._spatial_distribution.r_max,
             n_model=self._n_model,
             lf_params=lf_params,
-            spatial_params=self._spatial_distribution.params,
-            model_spaces=self._model_spaces,
+            spatial_params=dict(self._spatial_distribution.params),
+            model_spaces=dict(self._model_spaces),
             seed=self._seed,
             name=self._name,
             spatial_form=self._spatial_distribution.form,
-- 
2.43.0


From 273cea88922393826251b3573cb61e0a95c54a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 20/47] fix: draw normalized distances from the same density
 with and without progress bars

---
 popsynth/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/distribution.py b/popsynth/distribution.py
index e0afb97..648ed9f 100644
--- a/popsynth/distribution.py
+++ b/popsynth/distribution.py
@@ -369,7 +369,7 @@ class SpatialDistribution(Distribution):
         else:
 
             r_out = rejection_sample(
-                size, ymax, self.r_max, dNdr
+                size, ymax, self.r_max, dNdr_norm
             )  # type: ArrayLike
 
         self._distances = np.array(r_out)  # type: ArrayLike
-- 
2.43.0


From 80e884fd31992ff88439f05efb0020efbc9c701f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 21/47] fix: reject distributions with more than one
 normalization parameter

---
 popsynth/utils/meta.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/popsynth/utils/meta.py b/popsynth/utils/meta.py
index c89f159..c1e101d 100644
--- a/popsynth/utils/meta.py
+++ b/popsynth/utils/meta.py
@@ -171,6 +171,8 @@ class ParameterMeta(type):
 
                         raise AssertionError("Can only have 1 normalization")
 
+                    norm_counter += 1
+
         return cls
 
     def __subclasscheck__(cls, subclass):
-- 
2.43.0


From 18444dd1ceeb851796f46d3b0c00bf427ec2b822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:52 +0000
Subject: [PATCH 22/47] fix: logs that were silenced more than once can be
 re-activated

---
 popsynth/utils/logging.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/popsynth/utils/logging.py b/popsynth/utils/logging.py
index 1d3a96d..be71f4d 100644
--- a/popsynth/utils/logging.py
+++ b/popsynth/utils/logging.py
@@ -126,8 +126,16 @@ class LoggingState(object):
             popsynth_console_log_handler.level
         )
 
+        self._is_silenced: bool = False
+
     def _store_state(self):
 
+        # silenced logs could not be re-activated
+
+        if self._is_silenced:
+
+            return
+
         self.popsynth_usr_log_handler_state = popsynth_usr_log_handler.level
         self.popsynth_console_log_handler_state = (
             popsynth_console_log_handler.level
@@ -142,11 +150,15 @@ class LoggingState(object):
             self.popsynth_console_log_handler_state
         )
 
+        self._is_silenced = False
+
     def silence_logs(self):
 
         # store the state
         self._store_state()
 
+        self._is_silenced = True
+
         # silence the logs
         self.popsynth_usr_log_handler.setLevel(logging.CRITICAL)
         self.popsynth_console_log_handler.setLevel(logging.CRITICAL)
@@ -156,6 +168,8 @@ class LoggingState(object):
         # store the state
         self._store_state()
 
+        self._is_silenced = False
+
         # silence the logs
 
         self.popsynth_usr_log_handler.setLevel(logging.INFO)
-- 
2.43.0


From 128a4e792960f363ac97188a91902dd860cdec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 23/47] fix: give the distance selection the distances of the
 selected objects

---
 popsynth/population_synth.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index bd62bc3..7f3555b 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1387,6 +1387,10 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             log.warning("NO HIDDEN OBJECTS")
 
+        self._distance_selector.set_distance(
+            distances[global_selection.selection]
+        )
+
         self._distance_selector.select(size=global_selection.n_selected)
 
         known_distances = distances[global_selection.selection][
-- 
2.43.0


From fcd094a16634e84f0db65df65eb4a987ba96a894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 24/47] fix: keep what auxiliary selections act on in the
 configuration

---
 popsynth/auxiliary_sampler.py                 |  1 +
 popsynth/population_synth.py                  | 14 ++++++++++++-
 .../selection_probability.py                  | 20 +++++++++++++++++++
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index 0a1d6a6..919a854 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -542,6 +542,7 @@ class AuxiliarySampler(
 
         selection = {}
         selection[self.selector._selection_name] = self.selector.parameters
+        selection.update(self.selector.uses)
 
         tmp["selection"] = selection
 
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 7f3555b..f31066f 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -290,6 +290,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             selection = {}
             selection[v.selector._selection_name] = v.selector.parameters
+            selection.update(v.selector.uses)
 
             tmp["selection"] = selection
 
@@ -320,6 +321,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
             selection[
                 self._derived_luminosity_sampler.selector._selection_name
             ] = self._derived_luminosity_sampler.selector.parameters
+            selection.update(self._derived_luminosity_sampler.selector.uses)
 
             tmp["selection"] = selection
 
@@ -677,7 +679,13 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                 if selection is not None:
 
-                    sel_name = list(selection.keys())[0]
+                    uses = {
+                        k: bool(v)
+                        for k, v in selection.items()
+                        if k.startswith("use_")
+                    }
+
+                    sel_name = [k for k in selection.keys() if k not in uses][0]
 
                     log.debug(f"adding selection {sel_name}")
 
@@ -707,6 +715,10 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                     selector._use_obs_value = True
 
+                    for k, v in uses.items():
+
+                        setattr(selector, f"_{k}", v)
+
                     tmp.set_selection_probability(selector)
 
                 # now we store this sampler
diff --git a/popsynth/selection_probability/selection_probability.py b/popsynth/selection_probability/selection_probability.py
index b9522e0..07fa8c1 100644
--- a/popsynth/selection_probability/selection_probability.py
+++ b/popsynth/selection_probability/selection_probability.py
@@ -145,6 +145,26 @@ class SelectionProbability(
 
         return out
 
+    @property
+    def uses(self) -> Dict[str, bool]:
+        """
+        The quantities the selection is made on. It
+        is empty if it is (or can be) the observed value
+        """
+
+        out = {
+            "use_obs_value": self._use_obs_value,
+            "use_distance": self._use_distance,
+            "use_luminosity": self._use_luminosity,
+            "use_flux": self._use_flux,
+        }
+
+        if not (self._use_distance or self._use_luminosity or self._use_flux):
+
+            out = {}
+
+        return out
+
     @property
     def selection(self) -> np.ndarray:
         if self._selection is not None:
-- 
2.43.0


From 6af5974d55777b9f6271a3301b8a72b297526096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:14 +0000
Subject: [PATCH 25/47] fix: the power law sampler is reproducible from the
 seed of the survey

---
 popsynth/aux_samplers/plaw_aux_sampler.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/popsynth/aux_samplers/plaw_aux_sampler.py b/popsynth/aux_samplers/plaw_aux_sampler.py
index 6100f2b..a2f75e5 100644
--- a/popsynth/aux_samplers/plaw_aux_sampler.py
+++ b/popsynth/aux_samplers/plaw_aux_sampler.py
@@ -84,8 +84,11 @@ class PowerLawAuxSampler(AuxiliarySampler):
 
     def true_sampler(self, size: int):
 
+        # the random numbers come from numpy and not from numba
+        # as only the former is seeded when drawing a survey
+
         self._true_values = _sample_power_law(
-            self.xmin, self.xmax, self.alpha, size
+            np.random.uniform(0, 1, size=size), self.xmin, self.xmax, self.alpha
         )
 
     def observation_sampler(self, size: int):
@@ -157,13 +160,13 @@ class BrokenPowerLawAuxSampler(AuxiliarySampler):
 
 
 @nb.njit(fastmath=True)
-def _sample_power_law(xmin, xmax, alpha, size):
+def _sample_power_law(us, xmin, xmax, alpha):
 
-    out = np.empty(size)
+    out = np.empty(us.shape[0])
 
-    for i in range(size):
+    for i in range(us.shape[0]):
 
-        u = np.random.uniform(0, 1)
+        u = us[i]
 
         if alpha != -1.0:
 
-- 
2.43.0


From 0ea0f693d7fdda1930a56d934c79e40dd34c0f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:36 +0000
Subject: [PATCH 26/47] fix: sample broken power laws with a slope of minus one

---
 popsynth/distributions/bpl_distribution.py | 48 ++++++++++++++--------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/popsynth/distributions/bpl_distribution.py b/popsynth/distributions/bpl_distribution.py
index 48ed39b..956d9b4 100644
--- a/popsynth/distributions/bpl_distribution.py
+++ b/popsynth/distributions/bpl_distribution.py
@@ -65,6 +65,34 @@ class BPLDistribution(LuminosityDistribution):
         )
 
 
+def _integrate_piece(xa, xb, a):
+    """
+    Integrate a power law between bounds.
+    """
+
+    if a == -1.0:
+
+        return np.log(xb / xa)
+
+    return (np.power(xb, a + 1.0) - np.power(xa, a + 1.0)) / (a + 1)
+
+
+def _sample_piece(u, xa, xb, a):
+    """
+    Inverse transform sample a power law between bounds.
+    """
+
+    if a == -1.0:
+
+        return xa * np.power(xb / xa, u)
+
+    return np.power(
+        u * (np.power(xb, a + 1.0) - np.power(xa, a + 1.0))
+        + np.power(xa, a + 1.0),
+        1.0 / (1 + a),
+    )
+
+
 def integrate_pl(x0, x1, x2, a1, a2):
     """
     Integrate a broken power law between bounds.
@@ -77,12 +105,8 @@ def integrate_pl(x0, x1, x2, a1, a2):
     """
 
     # compute the integral of each piece analytically
-    int_1 = (np.power(x1, a1 + 1.0) - np.power(x0, a1 + 1.0)) / (a1 + 1)
-    int_2 = (
-        np.power(x1, a1 - a2)
-        * (np.power(x2, a2 + 1.0) - np.power(x1, a2 + 1.0))
-        / (a2 + 1)
-    )
+    int_1 = _integrate_piece(x0, x1, a1)
+    int_2 = np.power(x1, a1 - a2) * _integrate_piece(x1, x2, a2)
 
     # compute the total integral
     total = int_1 + int_2
@@ -155,17 +179,9 @@ def sample_bpl(u, x0, x1, x2, a1, a2):
     idx = stats.bernoulli.rvs(w1, size=len(u)).astype(bool)
 
     # inverse transform sample the lower part for the "successes"
-    out[idx] = np.power(
-        u[idx] * (np.power(x1, a1 + 1.0) - np.power(x0, a1 + 1.0))
-        + np.power(x0, a1 + 1.0),
-        1.0 / (1 + a1),
-    )
+    out[idx] = _sample_piece(u[idx], x0, x1, a1)
 
     # inverse transform sample the upper part for the "failures"
-    out[~idx] = np.power(
-        u[~idx] * (np.power(x2, a2 + 1.0) - np.power(x1, a2 + 1.0))
-        + np.power(x1, a2 + 1.0),
-        1.0 / (1 + a2),
-    )
+    out[~idx] = _sample_piece(u[~idx], x1, x2, a2)
 
     return out
-- 
2.43.0


From 07c8de6db021a448dfa8ab2caafd2a5270e720a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:22 +0000
Subject: [PATCH 27/47] fix: the truth of the spatial distribution includes
 default parameters

---
 popsynth/population_synth.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index f31066f..382427c 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1011,11 +1011,6 @@ class PopulationSynth(object, metaclass=ABCMeta):
         # this stores all the "true" population values from all the samplers
         truth = dict()  # type: dict
 
-        # store the spatial distributVion truths
-        truth[
-            self._spatial_distribution.name
-        ] = self._spatial_distribution.truth
-
         # set the random seed
 
         np.random.seed(self._seed)
@@ -1095,6 +1090,11 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         self._spatial_distribution.draw_sky_positions(size=n)
 
+        # store the spatial distributVion truths
+        truth[
+            self._spatial_distribution.name
+        ] = self._spatial_distribution.truth
+
         distances = self._spatial_distribution.distances  # type: np.ndarray
 
         log.info("Expecting %d total objects" % n)
-- 
2.43.0


From 850482369ed9d7a9235314e9ccf7158673db98a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 28/47] fix: the broken power law sampler has the measurement
 error it documents

---
 popsynth/aux_samplers/plaw_aux_sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/popsynth/aux_samplers/plaw_aux_sampler.py b/popsynth/aux_samplers/plaw_aux_sampler.py
index a2f75e5..1317621 100644
--- a/popsynth/aux_samplers/plaw_aux_sampler.py
+++ b/popsynth/aux_samplers/plaw_aux_sampler.py
@@ -112,6 +112,7 @@ class BrokenPowerLawAuxSampler(AuxiliarySampler):
     xbreak = AuxiliaryParameter(vmin=0)
     beta = AuxiliaryParameter()
     xmax = AuxiliaryParameter(vmin=0)
+    sigma = AuxiliaryParameter(default=1, vmin=0)
 
     def __init__(self, name: str, observed: bool = True):
         """
-- 
2.43.0


From 0bf21da1d43a363e8a5fc84ede833fb980f34100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 29/47] fix: resetting a sampler resets its selection

---
 popsynth/selection_probability/selection_probability.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/popsynth/selection_probability/selection_probability.py b/popsynth/selection_probability/selection_probability.py
index 07fa8c1..9733cfa 100644
--- a/popsynth/selection_probability/selection_probability.py
+++ b/popsynth/selection_probability/selection_probability.py
@@ -115,8 +115,11 @@ class SelectionProbability(
 
             log.info(f"Selection: {self.name} is being reset")
 
-            self._is_sampled = False
-            self._selection = None
+        # the selection of a sampler is drawn without being
+        # marked as sampled, but must not be left over either
+
+        self._is_sampled = False
+        self._selection = None
 
     def select(self, size: int):
 
-- 
2.43.0


From 5834f3731c887411c81784779945e408e5b8ee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:55 +0000
Subject: [PATCH 30/47] fix: normalize distances if the normalization parameter
 has its default

---
 popsynth/distribution.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/popsynth/distribution.py b/popsynth/distribution.py
index 648ed9f..796204e 100644
--- a/popsynth/distribution.py
+++ b/popsynth/distribution.py
@@ -45,6 +45,16 @@ class Distribution(
         self._parameter_storage: Dict[str, float] = {}
         self._normalization_parameter: Optional[str] = None
 
+        # the normalization has to be known before it is first accessed
+
+        for x in type(self).mro():
+
+            for k, v in x.__dict__.items():
+
+                if isinstance(v, Parameter) and v.is_normalization:
+
+                    self._normalization_parameter = k
+
         self._seed = seed  # type: int
         self._name = name  # type: str
         self._form = form  # type: str
@@ -54,7 +64,7 @@ class Distribution(
     @property
     def normalization_parameter(self) -> Optional[float]:
 
-        return self._parameter_storage[self._normalization_parameter]
+        return getattr(self, self._normalization_parameter)
 
     @normalization_parameter.setter
     def normalization_parameter(self, value):
-- 
2.43.0


From d167c0eb528fdf3d7c3d16502447891f7cbd9623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:54 +0000
Subject: [PATCH 31/47] fix: a selection which has not been made cannot be
 combined

Adding a selection without a result to another one did not raise the error
that the reverse raises, but gave a selection full of None.
---
 popsynth/selection_probability/selection_probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/selection_probability/selection_probability.py b/popsynth/selection_probability/selection_probability.py
index 9733cfa..0a2e330 100644
--- a/popsynth/selection_probability/selection_probability.py
+++ b/popsynth/selection_probability/selection_probability.py
@@ -64,7 +64,7 @@ class SelectionProbability(
 
         log.debug(f"adding selection from {other.name} to {self.name}")
 
-        new_selection = np.logical_and(self._selection, other.selection)
+        new_selection = np.logical_and(self.selection, other.selection)
 
         out = DummySelection()
         out._selection = new_selection
-- 
2.43.0


From 49281b562209b16147991f0410dfd06a9bf46f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:51 +0000
Subject: [PATCH 32/47] fix: truncated samplers without width

A truncated normal sampler with tau = 0 failed with a division by zero, and
its logarithmic versions with the mean on a bound.
---
 .../trunc_lognormal_aux_sampler.py            | 72 +++++++++++--------
 .../aux_samplers/trunc_normal_aux_sampler.py  | 28 +++++---
 2 files changed, 62 insertions(+), 38 deletions(-)

diff --git a/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py b/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
index affd06d..4467a9e 100644
--- a/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
+++ b/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
@@ -41,25 +41,33 @@ class TruncatedLogNormalAuxSampler(AuxiliarySampler):
 
     def true_sampler(self, size: int):
 
-        if self.lower == 0:
-            a = stats.norm.ppf(1e-5, loc=self.mu, scale=self.tau)
+        if self.tau == 0:
+
+            # there is nothing to truncate
+
+            self._true_values = np.repeat(np.exp(float(self.mu)), size)
+
         else:
-            a = np.log(self.lower)
 
-        b = np.log(self.upper)
+            if self.lower == 0:
+                a = stats.norm.ppf(1e-5, loc=self.mu, scale=self.tau)
+            else:
+                a = np.log(self.lower)
 
-        lower = (a - self.mu) / self.tau
-        upper = (b - self.mu) / self.tau
+            b = np.log(self.upper)
 
-        self._true_values = np.exp(
-            stats.truncnorm.rvs(
-                lower,
-                upper,
-                loc=self.mu,
-                scale=self.tau,
-                size=size,
+            lower = (a - self.mu) / self.tau
+            upper = (b - self.mu) / self.tau
+
+            self._true_values = np.exp(
+                stats.truncnorm.rvs(
+                    lower,
+                    upper,
+                    loc=self.mu,
+                    scale=self.tau,
+                    size=size,
+                )
             )
-        )
 
         assert np.alltrue(self._true_values >= self.lower)
         assert np.alltrue(self._true_values <= self.upper)
@@ -116,25 +124,33 @@ class TruncatedLog10NormalAuxSampler(AuxiliarySampler):
 
     def true_sampler(self, size: int):
 
-        if self.lower == 0:
-            a = stats.norm.ppf(1e-5,loc=self.mu,scale=self.tau)
+        if self.tau == 0:
+
+            # there is nothing to truncate
+
+            self._true_values = np.repeat(np.power(10, float(self.mu)), size)
+
         else:
-            a = np.log10(self.lower)
 
-        b = np.log10(self.upper)
+            if self.lower == 0:
+                a = stats.norm.ppf(1e-5,loc=self.mu,scale=self.tau)
+            else:
+                a = np.log10(self.lower)
 
-        lower = (a - self.mu) / self.tau
-        upper = (b - self.mu) / self.tau
+            b = np.log10(self.upper)
 
-        self._true_values = np.power(
-            10, stats.truncnorm.rvs(
-                lower,
-                upper,
-                loc=self.mu,
-                scale=self.tau,
-                size=size,
+            lower = (a - self.mu) / self.tau
+            upper = (b - self.mu) / self.tau
+
+            self._true_values = np.power(
+                10, stats.truncnorm.rvs(
+                    lower,
+                    upper,
+                    loc=self.mu,
+                    scale=self.tau,
+                    size=size,
+                )
             )
-        )
 
         assert np.alltrue(self._true_values >= self.lower)
         assert np.alltrue(self._true_values <= self.upper)
diff --git a/popsynth/aux_samplers/trunc_normal_aux_sampler.py b/popsynth/aux_samplers/trunc_normal_aux_sampler.py
index 304fb07..ae36665 100644
--- a/popsynth/aux_samplers/trunc_normal_aux_sampler.py
+++ b/popsynth/aux_samplers/trunc_normal_aux_sampler.py
@@ -44,16 +44,24 @@ class TruncatedNormalAuxSampler(AuxiliarySampler):
 
     def true_sampler(self, size):
 
-        lower = (self.lower - self.mu) / self.tau
-        upper = (self.upper - self.mu) / self.tau
-
-        self._true_values = stats.truncnorm.rvs(
-            lower,
-            upper,
-            loc=self.mu,
-            scale=self.tau,
-            size=size,
-        )
+        if self.tau == 0:
+
+            # there is nothing to truncate
+
+            self._true_values = np.repeat(float(self.mu), size)
+
+        else:
+
+            lower = (self.lower - self.mu) / self.tau
+            upper = (self.upper - self.mu) / self.tau
+
+            self._true_values = stats.truncnorm.rvs(
+                lower,
+                upper,
+                loc=self.mu,
+                scale=self.tau,
+                size=size,
+            )
 
         assert np.alltrue(self._true_values >= self.lower)
         assert np.alltrue(self._true_values <= self.upper)
-- 
2.43.0


From 80f6e0b39bd39e5f6bef91fc5d7b9110b3e9cb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:51 +0000
Subject: [PATCH 33/47] fix: normalize the log10-normal luminosity function

It was larger by a factor log(10) than the density of the luminosities
drawn, and so were the probabilities of the objects.
---
 popsynth/distributions/log10_normal_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/distributions/log10_normal_distribution.py b/popsynth/distributions/log10_normal_distribution.py
index 845be51..638ed39 100644
--- a/popsynth/distributions/log10_normal_distribution.py
+++ b/popsynth/distributions/log10_normal_distribution.py
@@ -32,7 +32,7 @@ class Log10NormalDistribution(LuminosityDistribution):
 
     def phi(self, L):
 
-        return (1.0 / (self.tau * L * np.sqrt(2 * np.pi))) * np.exp(
+        return (1.0 / (self.tau * L * np.log(10) * np.sqrt(2 * np.pi))) * np.exp(
             -((np.log10(L) - self.mu) ** 2) / (2 * self.tau**2)
         )
 
-- 
2.43.0


From 69e710db86968e76c9f53e072b66537ab1cf19cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:01 +0000
Subject: [PATCH 34/47] fix: a population read from a file can be written again

---
 popsynth/utils/hdf5_utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/popsynth/utils/hdf5_utils.py b/popsynth/utils/hdf5_utils.py
index a99cdc2..0f21a76 100644
--- a/popsynth/utils/hdf5_utils.py
+++ b/popsynth/utils/hdf5_utils.py
@@ -52,7 +52,17 @@ def recursively_save_dict_contents_to_group(h5file, path, dic: Dict[Any, Any]):
                 raise ValueError("Cannot save %s type" % type(item))
 
         if isinstance(
-            item, (np.ndarray, np.int64, np.float64, str, bytes, float, int)
+            item,
+            (
+                np.ndarray,
+                np.bool_,
+                np.int64,
+                np.float64,
+                str,
+                bytes,
+                float,
+                int,
+            ),
         ):
 
             h5file[path + "/" + key] = item
-- 
2.43.0


From d9bf0991b820c5d727e8a57ab915e8980a7a97d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:25 +0000
Subject: [PATCH 35/47] fix: display the true fluxes and arrows from them to
 the observed fluxes

---
 popsynth/population.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 157e8f3..e293621 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -984,7 +984,7 @@ class Population(object):
 
         ax.scatter(
             self._distances,
-            self._fluxes,
+            self._fluxes.latent,
             alpha=0.5,
             color=flux_color,
             edgecolors="none",
@@ -1000,12 +1000,14 @@ class Population(object):
         try:
 
             ax.set_ylim(
-                bottom=min([self._fluxes.min(), self._fluxes.selected.min()])
+                bottom=min(
+                    [self._fluxes.latent.min(), self._fluxes.selected.min()]
+                )
             )
 
         except ValueError:
 
-            ax.set_ylim(bottom=self._fluxes.min())
+            ax.set_ylim(bottom=self._fluxes.latent.min())
 
         ax.set_xlabel("distance")
         ax.set_ylabel("flux")
@@ -1096,7 +1098,7 @@ class Population(object):
 
         if (with_arrows) and (not self._no_detection):
             for start, stop, z in zip(
-                self._fluxes[self._selection],
+                self._fluxes.latent[self._selection],
                 self._fluxes.selected,
                 self._distances.selected,
             ):
-- 
2.43.0


From 00863b2b10c3c72b8a8f98f2f8c95b9dc8d796c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:25 +0000
Subject: [PATCH 36/47] fix: display the fluxes of an empty population

---
 popsynth/population.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index e293621..eae0400 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -1007,7 +1007,9 @@ class Population(object):
 
         except ValueError:
 
-            ax.set_ylim(bottom=self._fluxes.latent.min())
+            if len(self._fluxes) > 0:
+
+                ax.set_ylim(bottom=self._fluxes.latent.min())
 
         ax.set_xlabel("distance")
         ax.set_ylabel("flux")
-- 
2.43.0


From 4612496f340f1ce7141338e9f0393a8d19c3667e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:25 +0000
Subject: [PATCH 37/47] fix: a flux sphere without hidden objects is returned

---
 popsynth/population.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index eae0400..fe9a748 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -1301,7 +1301,7 @@ class Population(object):
             **kwargs,
         )
 
-        fig = self.display_hidden_fluxes_sphere(
+        hidden_fig = self.display_hidden_fluxes_sphere(
             cmap=unseen_cmap,
             distance_transform=distance_transform,
             use_log=use_log,
@@ -1311,7 +1311,7 @@ class Population(object):
             **kwargs,
         )
 
-        return fig
+        return fig if hidden_fig is None else hidden_fig
 
     def display_distances(self, ax=None):
         """
-- 
2.43.0


From a3dde9be4d3451fe9661f70335bb1504f72ec159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:25 +0000
Subject: [PATCH 38/47] fix: a synth without luminosity distribution has a
 representation

---
 popsynth/population_synth.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 382427c..91b0318 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1508,15 +1508,17 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
     def __repr__(self) -> str:
 
+        out = ""
+
         if self._has_derived_luminosity:
 
-            out = "Luminosity Function\n"
+            out += "Luminosity Function\n"
 
             out += self._derived_luminosity_sampler.__repr__()
 
         elif self._luminosity_distribution is not None:
 
-            out = "Luminosity Function\n"
+            out += "Luminosity Function\n"
 
             out += self._luminosity_distribution.__repr__()
 
-- 
2.43.0


From 3984a7e947c279254b923316f05602dfa35e90de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:17 +0000
Subject: [PATCH 39/47] fix: densities of power laws at integer luminosities

---
 popsynth/distributions/bpl_distribution.py    | 2 +-
 popsynth/distributions/pareto_distribution.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/popsynth/distributions/bpl_distribution.py b/popsynth/distributions/bpl_distribution.py
index 956d9b4..8113a7e 100644
--- a/popsynth/distributions/bpl_distribution.py
+++ b/popsynth/distributions/bpl_distribution.py
@@ -131,7 +131,7 @@ def bpl(x, x0, x1, x2, a1, a2):
     """
 
     # creatre a holder for the values
-    x = np.atleast_1d(x)
+    x = np.atleast_1d(x).astype(float)
 
     out = np.zeros_like(x)
 
diff --git a/popsynth/distributions/pareto_distribution.py b/popsynth/distributions/pareto_distribution.py
index 762ee4d..7d4382a 100644
--- a/popsynth/distributions/pareto_distribution.py
+++ b/popsynth/distributions/pareto_distribution.py
@@ -32,7 +32,9 @@ class ParetoDistribution(LuminosityDistribution):
 
     def phi(self, L):
 
-        out = np.zeros_like(L)
+        L = np.atleast_1d(L)
+
+        out = np.zeros_like(L, dtype=float)
 
         idx = L >= self.Lmin
 
-- 
2.43.0


From 46d8aa6101374e13abd00ed45c0199811417a0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 40/47] fix: broken power laws with integer parameters

---
 popsynth/distributions/bpl_distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/distributions/bpl_distribution.py b/popsynth/distributions/bpl_distribution.py
index 8113a7e..ffb4fe3 100644
--- a/popsynth/distributions/bpl_distribution.py
+++ b/popsynth/distributions/bpl_distribution.py
@@ -106,7 +106,7 @@ def integrate_pl(x0, x1, x2, a1, a2):
 
     # compute the integral of each piece analytically
     int_1 = _integrate_piece(x0, x1, a1)
-    int_2 = np.power(x1, a1 - a2) * _integrate_piece(x1, x2, a2)
+    int_2 = np.power(float(x1), a1 - a2) * _integrate_piece(x1, x2, a2)
 
     # compute the total integral
     total = int_1 + int_2
@@ -149,7 +149,7 @@ def bpl(x, x0, x1, x2, a1, a2):
 
     idx = (x >= x1) & (x < x2)
 
-    out[idx] = np.power(x[idx], a2) * np.power(x1, a1 - a2)
+    out[idx] = np.power(x[idx], a2) * np.power(float(x1), a1 - a2)
 
     return out * norm
 
-- 
2.43.0


From d83c6058ea4964ae9b254cc3d2a1deba63e9db4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:37 +0000
Subject: [PATCH 41/47] fix: the log-uniform luminosity density is zero outside
 its bounds

---
 popsynth/distributions/uniform_distribution.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/popsynth/distributions/uniform_distribution.py b/popsynth/distributions/uniform_distribution.py
index c986264..c49c2c8 100644
--- a/popsynth/distributions/uniform_distribution.py
+++ b/popsynth/distributions/uniform_distribution.py
@@ -41,7 +41,15 @@ class LogUniLuminiosityDistribution(LuminosityDistribution):
 
     def phi(self, L):
 
-        return 1.0 / (L * np.log(self.Lmax / self.Lmin))
+        L = np.atleast_1d(L)
+
+        out = np.zeros_like(L, dtype=float)
+
+        idx = (L >= self.Lmin) & (L <= self.Lmax)
+
+        out[idx] = 1.0 / (L[idx] * np.log(self.Lmax / self.Lmin))
+
+        return out
 
     def draw_luminosity(self, size=1):
 
-- 
2.43.0


From 289fc69c522900ef5adca5441a7d2c4aa321b9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:08 +0000
Subject: [PATCH 42/47] fix: power-law values with integer bounds and a
 negative index

---
 popsynth/aux_samplers/plaw_aux_sampler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/popsynth/aux_samplers/plaw_aux_sampler.py b/popsynth/aux_samplers/plaw_aux_sampler.py
index 1317621..2f80dfc 100644
--- a/popsynth/aux_samplers/plaw_aux_sampler.py
+++ b/popsynth/aux_samplers/plaw_aux_sampler.py
@@ -88,7 +88,10 @@ class PowerLawAuxSampler(AuxiliarySampler):
         # as only the former is seeded when drawing a survey
 
         self._true_values = _sample_power_law(
-            np.random.uniform(0, 1, size=size), self.xmin, self.xmax, self.alpha
+            np.random.uniform(0, 1, size=size),
+            float(self.xmin),
+            float(self.xmax),
+            float(self.alpha),
         )
 
     def observation_sampler(self, size: int):
-- 
2.43.0


From f4a84770133ec70dbba4331fd86e318c59d11a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 43/47] fix: class relations of distributions, samplers and
 selections

---
 popsynth/utils/meta.py | 33 ---------------------------------
 1 file changed, 33 deletions(-)

diff --git a/popsynth/utils/meta.py b/popsynth/utils/meta.py
index c1e101d..21b67cc 100644
--- a/popsynth/utils/meta.py
+++ b/popsynth/utils/meta.py
@@ -174,36 +174,3 @@ class ParameterMeta(type):
                     norm_counter += 1
 
         return cls
-
-    def __subclasscheck__(cls, subclass):
-        """Override for issubclass(subclass, cls)."""
-        if not isinstance(subclass, type):
-            raise TypeError("issubclass() arg 1 must be a class")
-        # Check cache
-
-        # Check the subclass hook
-        ok = cls.__subclasshook__(subclass)
-        if ok is not NotImplemented:
-            assert isinstance(ok, bool)
-            if ok:
-                cls._abc_cache.add(subclass)
-            else:
-                cls._abc_negative_cache.add(subclass)
-            return ok
-        # Check if it's a direct subclass
-        if cls in getattr(subclass, "__mro__", ()):
-            cls._abc_cache.add(subclass)
-            return True
-        # Check if it's a subclass of a registered class (recursive)
-        for rcls in cls._abc_registry:
-            if issubclass(subclass, rcls):
-                cls._abc_cache.add(subclass)
-                return True
-        # Check if it's a subclass of a subclass (recursive)
-        for scls in cls.__subclasses__():
-            if issubclass(subclass, scls):
-                cls._abc_cache.add(subclass)
-                return True
-        # No dice; update negative cache
-        cls._abc_negative_cache.add(subclass)
-        return False
-- 
2.43.0


From 6234cc0974c817d73d6b32d9a86306282897a005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 44/47] fix: write synths with numpy parameters to YAML

---
 popsynth/population_synth.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 91b0318..ac7846e 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -34,6 +34,17 @@ from popsynth.utils.registry import (
 log = setup_logger(__name__)
 
 
+class _SynthDumper(yaml.SafeDumper):
+    """
+    A YAML dumper that also knows the numbers of numpy
+    """
+
+
+_SynthDumper.add_multi_representer(
+    np.generic, lambda dumper, value: dumper.represent_data(value.item())
+)
+
+
 class PopulationSynth(object, metaclass=ABCMeta):
     def __init__(
         self,
@@ -197,7 +208,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 data=self.to_dict(),
                 default_flow_style=False,
                 sort_keys=False,
-                Dumper=yaml.SafeDumper,
+                Dumper=_SynthDumper,
             )
 
     def to_dict(self) -> Dict[str, Any]:
-- 
2.43.0


From 9d63267138dd4b69a35f9a7287448776b9ac6485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 45/47] fix: write populations with any numpy parameters to
 HDF5

---
 popsynth/utils/hdf5_utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/popsynth/utils/hdf5_utils.py b/popsynth/utils/hdf5_utils.py
index 0f21a76..9b5009b 100644
--- a/popsynth/utils/hdf5_utils.py
+++ b/popsynth/utils/hdf5_utils.py
@@ -55,9 +55,7 @@ def recursively_save_dict_contents_to_group(h5file, path, dic: Dict[Any, Any]):
             item,
             (
                 np.ndarray,
-                np.bool_,
-                np.int64,
-                np.float64,
+                np.generic,
                 str,
                 bytes,
                 float,
-- 
2.43.0


From 46788091277d8839517e2aa12525241381f69b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 46/47] fix: populations in files without known distances could
 not be read

---
 popsynth/population.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index fe9a748..37aff04 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -765,9 +765,11 @@ class Population(object):
 
         except KeyError:
 
-            known_distances = None
-            known_distance_idx = None
-            unknown_distance_idx = None
+            # none of the distances are known
+
+            known_distances = np.array([])
+            known_distance_idx = np.array([], dtype=int)
+            unknown_distance_idx = np.arange(int(sum(f["selection"][()])))
 
         try:
 
-- 
2.43.0


From 6891d618c596fb894670efde2247a943852f283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:13 +0000
Subject: [PATCH 47/47] fix: density of ZPowerCosmoDistribution failed for
 integer redshifts and negative integer indices

---
 popsynth/distributions/cosmological_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/distributions/cosmological_distribution.py b/popsynth/distributions/cosmological_distribution.py
index 8607f7c..3137499 100644
--- a/popsynth/distributions/cosmological_distribution.py
+++ b/popsynth/distributions/cosmological_distribution.py
@@ -202,7 +202,7 @@ class ZPowerCosmoDistribution(CosmologicalDistribution):
 
 @nb.njit(fastmath=True)
 def _zp_dndv(z, Lambda, delta):
-    return Lambda * np.power(z + 1, delta)
+    return Lambda * np.power(z + 1.0, delta)
 
 
 # class MergerDistribution(CosmologicalDistribution):
-- 
2.43.0

