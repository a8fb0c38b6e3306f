From 24fca77e444a3a3f10afa3be1b1b1a2eabf34205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 01/53] fix: include the volume derivative-functions when
 clearing the RT1 cache

---
 rt1/rt1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index 3f9ef0f..28d8d44 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -226,7 +226,7 @@ class RT1(object):
 
         names = [
             "_d_surface_dummy_lambda",
-            "_d_surface_dummy_lambda",
+            "_d_volume_dummy_lambda",
             "_mu_0_x",
             "_mu_ex_x",
         ]
@@ -234,7 +234,7 @@ class RT1(object):
 
     def _clear_cache(self):
         self._d_surface_dummy_lambda.cache_clear()
-        self._d_surface_dummy_lambda.cache_clear()
+        self._d_volume_dummy_lambda.cache_clear()
         RT1._mu_0_x.fget.cache_clear()
         RT1._mu_ex_x.fget.cache_clear()
 
-- 
2.43.0


From 867e96af6a1e32c09712ad81e6b03e9184b408df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 02/53] fix: drop cached powers of the zenith-angle cosines if
 the angles of an RT1 object change

---
 rt1/rt1.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index 28d8d44..86c378b 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -393,6 +393,9 @@ class RT1(object):
         if np.isscalar(t_0):
             t_0 = np.array([t_0])
         self.__t_0 = t_0
+        # the cached powers of cos(t_0) (and cos(t_ex)) are no longer valid
+        RT1._mu_0_x.fget.cache_clear()
+        RT1._mu_ex_x.fget.cache_clear()
 
     t_0 = property(_get_t_0, _set_t_0)
 
@@ -423,6 +426,8 @@ class RT1(object):
             if np.isscalar(t_ex):
                 t_ex = np.array([t_ex])
             self.__t_ex = t_ex
+            # the cached powers of cos(t_ex) are no longer valid
+            RT1._mu_ex_x.fget.cache_clear()
 
     t_ex = property(_get_t_ex, _set_t_ex)
 
-- 
2.43.0


From 8fef7d37f844a3496bf04f591354c1cd2c6e4918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 03/53] fix: validate p_ex (not p_0) if the exit-azimuth angle
 is fixed

---
 rt1/surface.py | 4 ++--
 rt1/volume.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rt1/surface.py b/rt1/surface.py
index fda6d74..e7d2083 100644
--- a/rt1/surface.py
+++ b/rt1/surface.py
@@ -254,7 +254,7 @@ class Surface(Scatter):
             if geometry[3] == "v":
                 phi_ex = sp.Symbol("phi_ex")
             elif geometry[3] == "f":
-                assert len(np.unique(p_0)) == 1, (
+                assert len(np.unique(p_ex)) == 1, (
                     "p_ex must contain only"
                     + " a single unique value for geometry[3] == f"
                 )
@@ -388,7 +388,7 @@ class Surface(Scatter):
             if geometry[3] == "v":
                 phi_ex = sp.Symbol("phi_ex")
             elif geometry[3] == "f":
-                assert len(np.unique(p_0)) == 1, (
+                assert len(np.unique(p_ex)) == 1, (
                     "p_ex must contain only"
                     + " a single unique value for geometry[3] == f"
                 )
diff --git a/rt1/volume.py b/rt1/volume.py
index 4c6d13b..1f38d8d 100644
--- a/rt1/volume.py
+++ b/rt1/volume.py
@@ -253,7 +253,7 @@ class Volume(Scatter):
             if geometry[3] == "v":
                 phi_ex = sp.Symbol("phi_ex")
             elif geometry[3] == "f":
-                assert len(np.unique(p_0)) == 1, (
+                assert len(np.unique(p_ex)) == 1, (
                     "p_ex must contain only"
                     + " a single unique value for geometry[3] == f"
                 )
@@ -426,7 +426,7 @@ class Volume(Scatter):
             if geometry[3] == "v":
                 phi_ex = sp.Symbol("phi_ex")
             elif geometry[3] == "f":
-                assert len(np.unique(p_0)) == 1, (
+                assert len(np.unique(p_ex)) == 1, (
                     "p_ex must contain only"
                     + " a single unique value for geometry[3] == f"
                 )
-- 
2.43.0


From 711482be81989ad7f2d050bf2a70683eb4bbeeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 04/53] fix: forward NormBRDF to the combined BRDF of
 LinCombSRF

---
 rt1/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/surface.py b/rt1/surface.py
index e7d2083..a36dd45 100644
--- a/rt1/surface.py
+++ b/rt1/surface.py
@@ -521,7 +521,7 @@ class LinCombSRF(Surface):
                 self.legcoefs = 0.0
 
         # initialize a combined phase-function class element
-        SRFcomb = BRDFfunction(NormBRDf=self.NormBRDF)
+        SRFcomb = BRDFfunction(NormBRDF=self.NormBRDF)
         # set ncoefs of the combined volume-class element to the maximum
         SRFcomb.ncoefs = max([SRF[1].ncoefs for SRF in self.SRFchoices])
         #   number of coefficients within the chosen functions.
-- 
2.43.0


From bd546bc38515a93623233e2bbe56854bab2cad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 05/53] fix: set the combined legendre-expansion of LinCombV at
 initialization

---
 rt1/volume.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rt1/volume.py b/rt1/volume.py
index 1f38d8d..d070839 100644
--- a/rt1/volume.py
+++ b/rt1/volume.py
@@ -484,6 +484,7 @@ class LinCombV(Volume):
         super(LinCombV, self).__init__(**kwargs)
 
         self.Vchoices = Vchoices
+        self._set_legexpansion()
 
         name = "LinCombV"
         for c in Vchoices:
-- 
2.43.0


From ad16a97ea2e603e3af72f4711f1b8b8ad2dcb6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 06/53] fix: clear cached properties if MultiFits.set_dataset
 replaces the dataset

---
 rt1/rtfits.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 909207a..61afa64 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3283,7 +3283,10 @@ class MultiFits:
         for name in self.config_names:
             # set "_dataset" directly instead of "dataset" to avoid checking the
             # index-sorting twice in the dataset-setter
-            getattr(self.configs, name)._dataset = self._dataset
+            fit = getattr(self.configs, name)
+            fit._dataset = self._dataset
+            # the cached properties still belong to the previous dataset
+            fit._clear_cache()
 
     def set_aux_data(self, aux_data):
         self._aux_data = aux_data
-- 
2.43.0


From ac126f571599d0c9368195e1100273dad42bcafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:47 +0000
Subject: [PATCH 07/53] fix: reset the evaluated fn-coefficients of a fit if
 defdict or set_V_SRF change

---
 rt1/rtfits.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 61afa64..c51cd90 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -307,8 +307,6 @@ class Fits(Scatter):
         if self.lambda_backend is None:
             self.lambda_backend = _init_lambda_backend
 
-        self._fnevals_input = _fnevals_input
-
         self.verbose = verbose
 
         self.ID = ID
@@ -321,6 +319,9 @@ class Fits(Scatter):
         else:
             self.defdict = defdict
 
+        # set this last (it is reset if defdict or set_V_SRF are set!)
+        self._fnevals_input = _fnevals_input
+
     @property
     def defdict(self):
         return self._defdict
@@ -412,6 +413,11 @@ class Fits(Scatter):
                 log.debug(f"{attr} has been set, clearing cache")
                 self._clear_cache()
 
+        # the evaluated fn-coefficients are only valid for the V and SRF
+        # specifications they have been generated with
+        if attr in ["defdict", "set_V_SRF"]:
+            super().__setattr__("_fnevals_input", None)
+
         super().__setattr__(attr, value)
 
     @property
-- 
2.43.0


From 14c461476946693990dda557e497b1153cc200b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 08/53] fix: evaluate the inner derivatives of tau, omega and
 NormBRDF with the distributed parameter-values

---
 rt1/rtfits.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index c51cd90..de0d128 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1839,12 +1839,16 @@ class Fits(Scatter):
         if order is None:
             order = self._order
 
+        # distribute the values to the actual shape of the dataset (the inner
+        # derivatives of tau, omega and NormBRDF need the same values as R)
+        res_dict = self._assignvals(res_dict, interp_vals)
+
         R = self._set_calc_values(
             R=R,
             res_dict=res_dict,
             fixed_dict=fixed_dict,
             interp_vals=interp_vals,
-            assign=True,
+            assign=False,
         )
 
         # if tau, omega or NormBRDF have been provided in terms of symbols,
-- 
2.43.0


From 30b0a67897f018e6c3c22d6f31f60c0202d839aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 09/53] fix: maintain the parameter-order expected by the
 compiled fn-coefficients

---
 rt1/rtfits.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index de0d128..4ebe06b 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1714,7 +1714,14 @@ class Fits(Scatter):
         }
 
         # set the param-dict to the newly generated dict
-        R.param_dict = strparam_fn
+        # (maintain the initial order of the keys since the fn-coefficients
+        # are evaluated with positional arguments!)
+        order = [str(key) for key in R.param_dict]
+        R.param_dict = {
+            key: strparam_fn[key]
+            for key in [*order, *strparam_fn]
+            if key in strparam_fn
+        }
 
         return R
 
-- 
2.43.0


From 7a979f50613fc8440ed801410404fa5eb14b1c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 10/53] fix: respect share_fnevals and share_auxdata and keep
 verbose and ID in Fits.reinit_object

---
 rt1/rtfits.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 4ebe06b..0b52579 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2774,6 +2774,8 @@ class Fits(Scatter):
             "int_Q": self.int_Q,
             "lambda_backend": self.lambda_backend,
             "_fnevals_input": use_fnevals,
+            "verbose": self.verbose,
+            "ID": self.ID,
         }
 
         args.update(**kwargs)
@@ -2843,7 +2845,9 @@ class Fits(Scatter):
             a new Fits-object.
 
         """
-        return self._reinit_object(self, **kwargs)
+        return self._reinit_object(
+            self, share_fnevals=share_fnevals, share_auxdata=share_auxdata, **kwargs
+        )
 
     def _get_res_dict_df(self, ID=None):
         """
-- 
2.43.0


From 03c6e40da3283c8cf562ea37f8224c29395f0f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 11/53] fix: only remove the const__ prefix (not all of its
 characters) from the names of constant results

---
 rt1/_rtprocess_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index bcd5109..edd87f6 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -263,7 +263,7 @@ class RT1_processor(object):
 
                     for cfg, cfg_results in val.items():
                         if cfg.startswith("const__"):
-                            results[cfg.lstrip("const__")].append(cfg_results)
+                            results[cfg[len("const__") :]].append(cfg_results)
                         elif isinstance(cfg_results, dict):
                             for cfg_key, cfg_val in cfg_results.items():
                                 results[cfg + "/" + cfg_key].append(cfg_val)
-- 
2.43.0


From e5bd2cb1a041d266de8f6bfa5bbfcd0d18b5865c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 12/53] fix: access constant layers in RT1_processor.get_data
 if no config is provided

---
 rt1/_rtprocess_writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index edd87f6..1506b4a 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -783,6 +783,8 @@ class RT1_processor(object):
                     + "\n    ".join(f"{key}: {val}" for key, val in cfg_keys.items())
                 )
 
-            usekey = f"{config}/{key}"
+                usekey = key
+            else:
+                usekey = f"{config}/{key}"
             res = store.select(usekey, **kwargs)
         return res
-- 
2.43.0


From 8ac647ce63bc097e4474ac539a4656d61c554ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 13/53] fix: count features whose reader returned None

---
 rt1/_rtprocess_writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index 1506b4a..40a42dc 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -468,6 +468,8 @@ class RT1_processor(object):
                 res = self.process_func(data, *args[1:])
                 self.queue.put(res)
             else:
+                # put None in the queue to make sure the feature is counted
+                self.queue.put(None)
                 log.warning(f"loading {args} resulted in None... skipping")
         except Exception:
             # put None in the queue to indicate an erroneous fit
-- 
2.43.0


From f0c112ea52a199137167c71da1c86b7cad4bc516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 14/53] fix: release the counter-lock also if updating the
 counters fails

---
 rt1/_rtprocess_writer.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index 40a42dc..ff54bcf 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -142,16 +142,15 @@ class RT1_processor(object):
         raise (SystemExit)
 
     def _increase_cnt(self, err=False):
-        self.lock.acquire()
-        if err is False:
-            # increase the total counter
-            self.p_totcnt.value += 1
-            # increase the counter for successful fits
-            self.p_meancnt.value += 1
-        else:
-            # only increase the total counter
-            self.p_totcnt.value += 1
-        self.lock.release()
+        with self.lock:
+            if err is False:
+                # increase the total counter
+                self.p_totcnt.value += 1
+                # increase the counter for successful fits
+                self.p_meancnt.value += 1
+            else:
+                # only increase the total counter
+                self.p_totcnt.value += 1
 
     def print_progress(self):
         # shut down the print-thread in case should_stop is set and the queue is empty
@@ -159,11 +158,10 @@ class RT1_processor(object):
             threading.current_thread().cancel()
             print()  # print a newline
 
-        self.lock.acquire()
-        qsize = self.queue.qsize()
-        p_totcnt = self.p_totcnt.value + qsize
-        p_meancnt = self.p_meancnt.value + qsize
-        self.lock.release()
+        with self.lock:
+            qsize = self.queue.qsize()
+            p_totcnt = self.p_totcnt.value + qsize
+            p_meancnt = self.p_meancnt.value + qsize
 
         if self.p_meancnt.value == 0:
             title = f"{'estimating time ...':<28}"
-- 
2.43.0


From cbbc1f9ffbc9354155e5b527d3294a7bfeb5b2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:17 +0000
Subject: [PATCH 15/53] fix: do not drop already collected results if a worker
 returned an invalid result

---
 rt1/_rtprocess_writer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index ff54bcf..f95da21 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -259,6 +259,12 @@ class RT1_processor(object):
                     except QueueEmpty:
                         break
 
+                    if not isinstance(val, dict):
+                        # don't loose already collected results!
+                        log.error(f"ignored an invalid result: {val}")
+                        self._increase_cnt(err=True)
+                        continue
+
                     for cfg, cfg_results in val.items():
                         if cfg.startswith("const__"):
                             results[cfg[len("const__") :]].append(cfg_results)
-- 
2.43.0


From 3bb47d15277e9a3734f5f401cb073fed2b4956d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:17 +0000
Subject: [PATCH 16/53] fix: raise the actual error if the initialization of a
 writer_pool fails

---
 rt1/_rtprocess_writer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index f95da21..7ae861b 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -539,11 +539,12 @@ class RT1_processor(object):
     @classmethod
     @contextmanager
     def writer_pool(cls, init_func=None, init_args=None, *args, **kwargs):
+        w = cls(*args, **kwargs)
+        manager = w._setup_manager()
+        writer, combiner = [], []
         try:
-            w = cls(*args, **kwargs)
-            manager = w._setup_manager()
-            writer = w._start_writer_process(init_func=init_func, init_args=init_args)
-            combiner = w._start_combiner_process(
+            writer += w._start_writer_process(init_func=init_func, init_args=init_args)
+            combiner += w._start_combiner_process(
                 init_func=init_func, init_args=init_args
             )
 
-- 
2.43.0


From ab6008911cae951a75495e42ae774dcb6178ecfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 17/53] fix: do not block the workers forever if writing
 results failed

---
 rt1/_rtprocess_writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index 7ae861b..7c740a0 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -455,7 +455,8 @@ class RT1_processor(object):
             except Exception:
                 log.error("problem while writing data... exiting", exc_info=True)
                 self._stop.set()
-                self.should_wait.clear()
+                # don't pause the workers since there is nobody left to wake them up
+                self.should_wait.set()
                 self.write_lock.release()
 
     def _worker_process(self, *args):
-- 
2.43.0


From 80804a7681ef8d41cb001972b608c556c60b72dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 18/53] fix: allow processing without a log-file and report the
 actual error if the setup fails

---
 rt1/rtprocess.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 81da933..64d15bb 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -853,6 +853,7 @@ class RTprocess(object):
             if hasattr(self.proc_cls, "finalizer"):
                 self.proc_cls.finalizer()
 
+        queue, proc_counter, listener = None, None, None
         try:
             # initialize all necessary properties if setup was not yet called
             self.setup()
@@ -876,8 +877,6 @@ class RTprocess(object):
                 # initialization of the  folder-structure!
                 # (otherwise the log-file can not be generated!)
                 self._worker_configurer(queue, loglevel=logfile_level)
-            else:
-                queue, proc_counter = None
 
             if logfile_level is not None:
                 # start the listener after the setup-function completed, since
@@ -954,12 +953,13 @@ class RTprocess(object):
             # turn off capturing warnings
             logging.captureWarnings(False)
 
-            if logfile_level is not None:
+            if listener is not None:
                 # tell the queue to stop
                 queue.put_nowait(None)
 
                 # stop the listener process
-                listener.join()
+                if listener.is_alive():
+                    listener.join()
 
                 # remove any remaining file-handler and queue-handlers after
                 # the processing is done
@@ -1055,6 +1055,7 @@ class RTprocess(object):
         if postprocess is not None:
             assert callable(postprocess), "postprocess must be callable!"
 
+        queue, proc_counter, listener = None, None, None
         try:
             # override finalout_name
             # do this BEFORE self.setup() is called !!
@@ -1095,8 +1096,6 @@ class RTprocess(object):
                 # initialization of the  folder-structure!
                 # (otherwise the log-file can not be generated!)
                 self._worker_configurer(queue, loglevel=logfile_level)
-            else:
-                queue, proc_counter = None, None
 
             if logfile_level is not None:
                 # start the listener after the setup-function completed, since
@@ -1132,12 +1131,13 @@ class RTprocess(object):
             # turn off capturing warnings
             logging.captureWarnings(False)
 
-            if logfile_level is not None:
+            if listener is not None:
                 # tell the queue to stop
                 queue.put_nowait(None)
 
                 # stop the listener process
-                listener.join()
+                if listener.is_alive():
+                    listener.join()
 
                 # remove any remaining file-and queue-handlers after processing is done
                 handlers = groupby_unsorted(log.handlers, key=lambda x: x.name)
-- 
2.43.0


From 99f8ee5f9548ffc2f0a3a70e74c23ad992addea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 19/53] fix: restore the autocontinue setting also if the setup
 for the finaloutput fails

---
 rt1/rtprocess.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 64d15bb..755ff69 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1068,8 +1068,10 @@ class RTprocess(object):
             # initialize all necessary properties with autocontinue=True
             initial_autocontinue = self.autocontinue
             self.autocontinue = True
-            self.setup()
-            self.autocontinue = initial_autocontinue
+            try:
+                self.setup()
+            finally:
+                self.autocontinue = initial_autocontinue
 
             # if "save-path" is not provided explicitly, use the path from the config
             if save_path is None:
-- 
2.43.0


From 4009f16470b73d76792ab4d72e9f16d9762501e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 20/53] fix: keep the overrides of all other sections if
 override_config is called with override=False

---
 rt1/rtprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 755ff69..52b6a1f 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -234,10 +234,10 @@ class RTprocess(object):
             }
 
         if override is False:
-            for section, init_defs in init_kwargs.items():
+            for section, init_defs in self.init_kwargs.items():
                 init_kwargs[section] = {
-                    **self.init_kwargs.get(section, {}),
                     **init_defs,
+                    **init_kwargs.get(section, {}),
                 }
 
         self.init_kwargs = init_kwargs
-- 
2.43.0


From 7b39402cd709f871b4d08fb33f8b6b60e657e177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 21/53] fix: accept init_kwargs in the form that is used by
 setup (e.g. section-names and dicts of strings)

---
 rt1/rtprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 52b6a1f..8876093 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -153,7 +153,9 @@ class RTprocess(object):
             self.init_kwargs = dict()
         else:
             assert all(
-                [isinstance(i, str) for i in init_kwargs.values()]
+                isinstance(i, str)
+                for init_defs in init_kwargs.values()
+                for i in init_defs.values()
             ), 'the values of "init_kwargs" MUST be strings !'
             self.init_kwargs = init_kwargs
 
-- 
2.43.0


From 8cd03d517e63938c706a3ec5c7dc5dbf622457c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 22/53] fix: do not attach the auxiliary data of the previous
 feature to MultiFits results

---
 rt1/rtprocess.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 8876093..ede0696 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -487,9 +487,8 @@ class RTprocess(object):
             if isinstance(self.parent_fit, MultiFits):
                 # set the dataset
                 self.parent_fit.set_dataset(dataset)
-                # set the aux_data
-                if aux_data is not None:
-                    self.parent_fit.set_aux_data(aux_data)
+                # set the aux_data (also if None, to get rid of already present aux_data)
+                self.parent_fit.set_aux_data(aux_data)
                 # append reader_arg to all configs
                 self.parent_fit.set_reader_arg(reader_arg)
                 # set ID for all configs
-- 
2.43.0


From 0b8ec04876a075a283c8c9896c98f0d1e1143963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 23/53] fix: do not change the pool_kwargs provided by the user

---
 rt1/rtprocess.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index ede0696..69f132b 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -712,6 +712,9 @@ class RTprocess(object):
 
             if pool_kwargs is None:
                 pool_kwargs = dict()
+            else:
+                # avoid changing the provided dict
+                pool_kwargs = dict(pool_kwargs)
 
             # add provided initializer and queue (used for subprocess-logging)
             # to the initargs and use "self._initializer" as initializer-function
-- 
2.43.0


From 4f289669b1ced5f77a32cf61e1d02f3513b10b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 24/53] fix: support save_res_df for MultiFits objects

---
 rt1/rtfits.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 0b52579..5338848 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3243,11 +3243,17 @@ class MultiFits:
         return args
 
     def _get_fit_to_hdf_dict(
-        self, save_results=True, save_data=True, save_auxdata=True, ID=None
+        self,
+        save_results=True,
+        save_res_df=True,
+        save_data=True,
+        save_auxdata=True,
+        ID=None,
     ):
         return Fits._get_fit_to_hdf_dict(
             self,
             save_results=save_results,
+            save_res_df=save_res_df,
             save_data=save_data,
             save_auxdata=save_auxdata,
             ID=ID,
-- 
2.43.0


From 15f4fec29ebf234deb3ddeac684220a6fdeff78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 25/53] fix: do not list the name of a config twice if it is
 replaced in MultiFits.add_config

---
 rt1/rtfits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 5338848..3d2c09d 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3395,7 +3395,8 @@ class MultiFits:
         assert name not in set(
             self.__dict__
         ), f"you can not use {name} as the name for a configuration!"
-        self.config_names.append(name)
+        if name not in self.config_names:
+            self.config_names.append(name)
 
         fit_object.dataset = self.dataset
         fit_object.aux_data = self.aux_data
-- 
2.43.0


From 3713f2692c9102cebd8cc4899f104136ca75a525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 26/53] fix: do not add the fixed values to the provided
 res_dict

---
 rt1/rtfits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 3d2c09d..3e78fe8 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1662,7 +1662,8 @@ class Fits(Scatter):
         #             key, val in self._assignvals(res_dict).items()}
         if assign is True:
             res_dict = self._assignvals(res_dict, interp_vals)
-        res_dict.update(fixed_dict)
+        # (use a new dict to avoid changing the provided one)
+        res_dict = {**res_dict, **fixed_dict}
 
         # update the numeric representations of omega, tau and NormBRDF
         # based on the values for the used symbols provided in res_dict
-- 
2.43.0


From fd6a5904854dd8c69db6d6d6e94054a8ee30ede1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 27/53] fix: do not keep the mini-dump indicator if dumping a
 fit failed

---
 rt1/rtfits.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 3e78fe8..6bbd266 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -381,12 +381,11 @@ class Fits(Scatter):
 
     def __getstate__(self):
         if "_rt1_dump_mini" in self.__dict__:
-            # remove the dummy-attribute that indicates that we do a mini-dump
-            delattr(self, "_rt1_dump_mini")
-
             # remove unnecessary data to save storage
             removekeys = ["_fnevals_input"]
             returndict = {key: val for key, val in self.__dict__.items()}
+            # don't store the dummy-attribute that indicates that we do a mini-dump
+            del returndict["_rt1_dump_mini"]
             for key in removekeys:
                 returndict[key] = None
 
@@ -2448,8 +2447,11 @@ class Fits(Scatter):
             except AttributeError:
                 pass
 
-        with open(path, "wb") as file:
-            cloudpickle.dump(self, file)
+        try:
+            with open(path, "wb") as file:
+                cloudpickle.dump(self, file)
+        finally:
+            self.__dict__.pop("_rt1_dump_mini", None)
 
     def calc(self, param, inc, return_components=True, fixed_param=None):
         """
@@ -3421,5 +3423,9 @@ class MultiFits:
                 except AttributeError:
                     pass
 
-        with open(path, "wb") as file:
-            cloudpickle.dump(self, file)
+        try:
+            with open(path, "wb") as file:
+                cloudpickle.dump(self, file)
+        finally:
+            for fit in self.configs:
+                fit.__dict__.pop("_rt1_dump_mini", None)
-- 
2.43.0


From 260d69e5ed7e621278625bd7f80112566e213253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 28/53] fix: support return_ID in load_fit for fits loaded from
 the HDF-store

---
 rt1/rtresults.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index 91defbe..ede2775 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -371,7 +371,10 @@ class RTresults(object):
                 fit = self._load_fit_from_HDF(ID)
 
             if return_ID is True:
-                return (fit, filepath.stem)
+                if self._use_dumps is True or isinstance(ID, Path):
+                    return (fit, filepath.stem)
+                else:
+                    return (fit, fit.ID)
             else:
                 return fit
 
-- 
2.43.0


From 8699ad4b1043aeade0450b53b82f2c9c81e58040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 29/53] fix: the properties of defdict variables already return
 the values

---
 rt1/_containers.py | 12 ++++++------
 rt1/rtprocess.py   |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/rt1/_containers.py b/rt1/_containers.py
index 58d0c37..213c83d 100644
--- a/rt1/_containers.py
+++ b/rt1/_containers.py
@@ -386,10 +386,10 @@ class _RT1_variable:
         """
 
         return dict(
-            fitQ=self.fitQ.value,
-            val=self.val.value,
-            freq=self.freq.value,
-            minval=self.minval.value,
-            maxval=self.maxval.value,
-            interpQ=self.interpQ.value,
+            fitQ=self.fitQ,
+            val=self.val,
+            freq=self.freq,
+            minval=self.minval,
+            maxval=self.maxval,
+            interpQ=self.interpQ,
         )
diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 69f132b..ecb8858 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1732,7 +1732,7 @@ class RTprocess(object):
                 elif key in defs["fitted_const"]:
                     staticlayers[key] = fit.res_dict[key][0]
                 elif key in defs["constant"]:
-                    staticlayers[key] = fit.defdict[key].val.value
+                    staticlayers[key] = fit.defdict[key].val
                 elif key in defs["auxiliary"]:
                     usedfs.append(fit.dataset[key])
             elif key in fit.dataset:
-- 
2.43.0


From 9bef5fd92ac6c269acdff81cdbf56abdb97607b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 30/53] fix: store already existing dump-files with the
 ID-number assigned to the feature

---
 rt1/processing_config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/processing_config.py b/rt1/processing_config.py
index 91ff7d8..54807b6 100644
--- a/rt1/processing_config.py
+++ b/rt1/processing_config.py
@@ -223,7 +223,9 @@ class rt1_processing_config(object):
 
             try:
                 fit = load(self.rt1_procsesing_dumppath / names_ids["filename"])
-                return fit._get_fit_to_hdf_dict()
+                return fit._get_fit_to_hdf_dict(
+                    ID=reader_arg.get("_RT1_ID_num", None)
+                )
             except Exception:
                 log.error(
                     "there has been a problem while loading the "
-- 
2.43.0


From def9f221faa03bd4725c915b63c3cd543e004688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 31/53] fix: respect sig_to_dB and inc_to_degree in
 export_data_to_HDF

---
 rt1/rtprocess.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index ecb8858..94dcf09 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1548,6 +1548,8 @@ class RTprocess(object):
             metrics=metrics,
             export_functions=export_functions,
             model_keys=model_keys,
+            sig_to_dB=sig_to_dB,
+            inc_to_degree=inc_to_degree,
             _fnevals_input=fn_evals,
         )
 
-- 
2.43.0


From 0fe2712d8f1b8fd616a1d732100cb2674c97540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 32/53] fix: use a list to select the exported model-components
 (sets are no valid indexers)

---
 rt1/rtprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 94dcf09..cee852d 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1616,7 +1616,7 @@ class RTprocess(object):
 
         auxdata, staticlayers = dict(), dict()
         if model_keys:
-            auxdata = fit.calc_model(return_components=True)[model_keys]
+            auxdata = fit.calc_model(return_components=True)[list(model_keys)]
 
         if export_functions:
             for key, func in export_functions.items():
-- 
2.43.0


From 5402c37c6db4a1ff203e70823e392d50791dde32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 33/53] fix: export static parameters for all fits of a worker
 (not only for the first one)

---
 rt1/rtprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index cee852d..4e5d645 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1624,7 +1624,9 @@ class RTprocess(object):
                     val = func(fit)
                     if isinstance(val, (int, float, np.number)):
                         staticlayers[key] = val
-                        parameters.remove(key)
+                        # (don't change the provided parameters since they are used
+                        # for all processed fits!)
+                        parameters = set(parameters) - {key}
                     else:
                         auxdata[key] = val
 
-- 
2.43.0


From 2a88080dad3c61640720c5dfc6c2fcec25ee5570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 34/53] fix: allow overriding arguments of the callbacks
 returned by MultiFits.accessor

---
 rt1/rtfits.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 6bbd266..11e8fd6 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3116,7 +3116,6 @@ class _MultiAccessors:
 
     def _getit(self, prop):
         def _get_all(self):
-            print(prop)
             return {name: getattr(fit, prop) for name, fit in self.config_fits.items()}
 
         return _get_all
@@ -3127,16 +3126,12 @@ class _MultiAccessors:
 
         @wraps(getattr(Fits, prop))
         def cb(*args, **kwargs):
-            for i, arg in enumerate(args):
-                # update args and kwargs with new provided ones in case the function is
-                # called explicitly
-                if i < len(start_args):
-                    start_args[i] = arg
-                else:
-                    start_args.append(arg)
-            start_kwargs.update(kwargs)
+            # update args and kwargs with new provided ones in case the function is
+            # called explicitly
+            use_args = [*args, *start_args[len(args) :]]
+            use_kwargs = {**start_kwargs, **kwargs}
 
-            return methodcaller(prop, *start_args, **start_kwargs)(val)
+            return methodcaller(prop, *use_args, **use_kwargs)(val)
 
         return cb
 
-- 
2.43.0


From b4072d5451677c77eb699f98dba603c82eff81b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:55 +0000
Subject: [PATCH 35/53] fix: provide all required arguments if a metric is
 requested for 2 explicit keys

---
 rt1/rtmetrics.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/rt1/rtmetrics.py b/rt1/rtmetrics.py
index d95fed0..54d1f73 100644
--- a/rt1/rtmetrics.py
+++ b/rt1/rtmetrics.py
@@ -53,7 +53,17 @@ class _metric_keys(object):
                         ),
                     )
             elif isinstance(d2, str):
-                setattr(getattr(self, d1), d2, _RTmetrics1(d1=d1, d2=d2, fit=fit))
+                setattr(
+                    getattr(self, d1),
+                    d2,
+                    _RTmetrics1(
+                        d1=d1,
+                        d2=d2,
+                        fit=fit,
+                        auxdat=auxdat,
+                        all_keys=self._all_keys,
+                    ),
+                )
             else:
                 try:
                     d2name = d2.name
-- 
2.43.0


From 5947e10ee58727a08769cf78e676db96c3dc42b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 36/53] fix: store the manual dynamics columns if save_data is
 False

---
 rt1/rtfits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 11e8fd6..b1b2c1c 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2988,7 +2988,7 @@ class Fits(Scatter):
                 if isinstance(self, MultiFits):
                     dynkeys = set(
                         key + "_dyn"
-                        for cfg, defdict in self.apply(lambda fit: self.defdict)
+                        for cfg, defdict in self.apply(lambda fit: fit.defdict)
                         for key, val in defdict.items()
                         if val[0] and val[2] == "manual"
                     )
@@ -2998,7 +2998,7 @@ class Fits(Scatter):
                         for key, val in self.defdict.items()
                         if val[0] and val[2] == "manual"
                     )
-                df = getattr(self, "dataset", None)[dynkeys]
+                df = getattr(self, "dataset", None)[sorted(dynkeys)]
 
                 hf["dataset"] = Fits._prepend_ID_to_index(df, ID)
         except Exception:
-- 
2.43.0


From 9f46a06de9433d56b91cea4b7e01f31553aeca3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 37/53] fix: allow a single config-name as use_config in
 run_finaloutput

---
 rt1/rtprocess.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 4e5d645..038464f 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1178,6 +1178,8 @@ class RTprocess(object):
             if isinstance(self.parent_fit, MultiFits):
                 if use_config is None or use_config == "from_postprocess":
                     cfgs = self.parent_fit.config_names
+                elif isinstance(use_config, str):
+                    cfgs = [use_config]
                 else:
                     cfgs = use_config
 
@@ -1224,6 +1226,8 @@ class RTprocess(object):
                 fit, MultiFits
             ):
                 use_config = fit.config_names
+            elif isinstance(use_config, str):
+                use_config = [use_config]
 
             # assign pre-evaluated fn-coefficients
             if hasattr(self, "parent_fit"):
-- 
2.43.0


From 2cf97ceac17aa7b724fcf7ecc3128a1483b94a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 38/53] fix: use symbols to evaluate the V and SRF properties
 (functions might combine the parameters)

---
 rt1/rtfits.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index b1b2c1c..7998a03 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2797,8 +2797,10 @@ class Fits(Scatter):
             return self.set_V_SRF
         else:
             try:
-                # init V and SRF with string-variables
-                V, SRF = self.set_V_SRF(**dict(zip(*[self.defdict._variables] * 2)))
+                # init V and SRF with symbolic variables
+                V, SRF = self.set_V_SRF(
+                    **{key: sp.Symbol(key) for key in self.defdict._variables}
+                )
                 return dict(V_props=V.init_dict, SRF_props=SRF.init_dict)
             except TypeError:
                 log.error("Not all variables are specified in defdict!", exc_info=True)
-- 
2.43.0


From cab051c01a53ae22f8fb0827faf3cd97b0f0e0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 39/53] fix: resolve the parameters of the parts of a linear
 combination

---
 rt1/rtfits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 7998a03..27a6e92 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2239,7 +2239,9 @@ class Fits(Scatter):
                 for val, initdict in props[f"{prefix}choices"]:
                     useval = checkval(val, val)
 
-                    choices.append([useval, self._init_V_SRF(initdict)])
+                    choice = self._init_V_SRF(initdict, setdict=setdict)
+                    free_symbols.update(choice.free_symbols)
+                    choices.append([useval, choice])
 
                 set_dict[f"{prefix}choices"] = choices
 
-- 
2.43.0


From a71a489a2560e5b19c7ca69718de2360b8496ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 40/53] fix: convert model contributions to dB if sig_to_dB is
 True in export_data_to_HDF

---
 rt1/rtprocess.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 038464f..ed2644c 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1621,6 +1621,8 @@ class RTprocess(object):
         auxdata, staticlayers = dict(), dict()
         if model_keys:
             auxdata = fit.calc_model(return_components=True)[list(model_keys)]
+            if fit.dB is False and sig_to_dB:
+                auxdata = 10.0 * np.log10(auxdata)
 
         if export_functions:
             for key, func in export_functions.items():
-- 
2.43.0


From b3cab944017dde043e35d227801e0febe9007cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 41/53] fix: use export_functions also for model contributions
 in export_data_to_HDF

---
 rt1/rtprocess.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index ed2644c..3730823 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1498,7 +1498,9 @@ class RTprocess(object):
             metrics = dict()
 
         # ----- separate model-keys from the provided parameters
+        # (keys with custom export-functions are handled by the provided functions)
         model_keys = set(parameters) & set(["tot", "surf", "vol", "inter"])
+        model_keys = model_keys - set(export_functions or {})
         parameters = set(parameters) ^ model_keys
 
         # ----- initialize a RTresults object for easy access to the list of dump-files
-- 
2.43.0


From 60ca84749b94362f89a0a167af0e8ee8e1b886ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 42/53] fix: don't sanitize IDs twice when loading fits from
 the HDF store

---
 rt1/rtresults.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index ede2775..d52440f 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -657,7 +657,9 @@ class HDFaccessor(object):
                 if reader_arg is not None:
                     mf.set_reader_arg(reader_arg)
 
-                mf.set_ID(self.IDs.loc[ID].values[0])
+                # set "_ID" directly since the IDs have already been sanitized
+                for fit in mf.configs:
+                    fit._ID = self.IDs.loc[ID].values[0]
                 return mf
 
             else:
@@ -665,7 +667,8 @@ class HDFaccessor(object):
                     key: literal_eval(val) for key, val in init_dict.loc[ID].items()
                 }
                 fit = Fits(**attrs)
-                fit.ID = self.IDs.loc[ID].values[0]
+                # set "_ID" directly since the IDs have already been sanitized
+                fit._ID = self.IDs.loc[ID].values[0]
 
                 if dataset is not None:
                     fit.dataset = dataset.loc[ID]
-- 
2.43.0


From c4001d0b2356b7f569a2f7aa5e807053edc59bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 43/53] fix: store the ID of fits whose reader_arg does not
 contain it

---
 rt1/rtfits.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 27a6e92..b161ace 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2971,12 +2971,15 @@ class Fits(Scatter):
 
         # -------------- save READER_ARG   (always saved)
         try:
-            df = pd.DataFrame(self.reader_arg, [ID])
+            # make sure the ID of the fit can be recovered
+            df = pd.DataFrame({**self.reader_arg}, [ID])
+            if "ID" not in df:
+                df["ID"] = self.ID
             df.index.name = "ID"
             hf["const__reader_arg"] = df
         except Exception:
             log.debug(f"could not save 'reader_arg' for fit {ID}")
-            df = pd.DataFrame({"ID": ID}, [ID])
+            df = pd.DataFrame({"ID": self.ID}, [ID])
             df.index.name = "ID"
 
             hf["const__reader_arg"] = df
-- 
2.43.0


From e674543f8c1c9b98a2f7706f912749b1e89c87a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 44/53] fix: a config section can override the entries of a
 linear combination of V/SRF

---
 rt1/rtparse.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/rt1/rtparse.py b/rt1/rtparse.py
index e066dc2..b2de12c 100644
--- a/rt1/rtparse.py
+++ b/rt1/rtparse.py
@@ -248,11 +248,10 @@ class RT1_configparser(object):
             parsed_dict[key] = val
         return parsed_dict
 
-    def _parse_V_SRF(self, section):
-        inp = self.config[section]
-
+    def _parse_V_SRF(self, *sections):
+        # (the keys of later sections override the keys of earlier ones)
         parsed_dict = dict()
-        for key in inp:
+        for inp, key in ((self.config[s], k) for s in sections for k in self.config[s]):
             val = None
             if key == "ncoefs" or key[1:] == "__ncoefs":
                 val = inp.getint(key)
@@ -272,9 +271,9 @@ class RT1_configparser(object):
             parsed_dict[key] = val
 
         for prefix in ["V", "SRF"]:
-            if (
-                f"{prefix}_name" in parsed_dict
-                and parsed_dict[f"{prefix}_name"] == f"LinComb{prefix}"
+            if any(
+                self.config[s].get(f"{prefix}_name") == f"LinComb{prefix}"
+                for s in sections
             ):
                 choices = defaultdict(lambda: [1, dict()])
                 for key in list(parsed_dict):
@@ -390,14 +389,14 @@ class RT1_configparser(object):
 
             # update RT1_V
             if f"#config {config} RT1_V" in self.config:
-                V_props = self._parse_V_SRF("RT1_V")
-                V_props.update(self._parse_V_SRF(f"#config {config} RT1_V"))
-                set_V_SRF["V_props"] = V_props
+                set_V_SRF["V_props"] = self._parse_V_SRF(
+                    "RT1_V", f"#config {config} RT1_V"
+                )
             # update RT1_SRF
             if f"#config {config} RT1_SRF" in self.config:
-                SRF_props = self._parse_V_SRF("RT1_SRF")
-                SRF_props.update(self._parse_V_SRF(f"#config {config} RT1_SRF"))
-                set_V_SRF["SRF_props"] = SRF_props
+                set_V_SRF["SRF_props"] = self._parse_V_SRF(
+                    "RT1_SRF", f"#config {config} RT1_SRF"
+                )
 
         return dict(
             lsq_kwargs=lsq_kwargs,
-- 
2.43.0


From beea38e382cca77166c204325a680b88c181eaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:34 +0000
Subject: [PATCH 45/53] fix: angular derivatives of CosineLobe can be evaluated
 (sign() has no numeric derivative)

---
 rt1/surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rt1/surface.py b/rt1/surface.py
index a36dd45..9c85725 100644
--- a/rt1/surface.py
+++ b/rt1/surface.py
@@ -705,8 +705,9 @@ class CosineLobe(Surface):
         # alternative formulation avoiding the use of sp.Max()
         #     (this is done because   sp.lambdify('x',sp.Max(x), "numpy")
         #      generates a function that can not interpret array inputs.)
+        # ... and sp.sign() (whose derivative can not be evaluated numerically)
         x = self.scat_angle(theta_0, theta_ex, phi_0, phi_ex, a=self.a)
-        return 1.0 / sp.pi * (x * (1.0 + sp.sign(x)) / 2.0) ** self.i
+        return 1.0 / sp.pi * sp.Piecewise((0.0, x < 0), (x, True)) ** self.i
 
 
 class HenyeyGreenstein(Surface):
-- 
2.43.0


From 1e83e89fa34179791410872c35ba39f19cf36cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:56 +0000
Subject: [PATCH 46/53] fix: auxiliary start-values with "index" dynamics work
 for unequal numbers of measurements

---
 rt1/rtfits.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index b161ace..c04c9cd 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1133,10 +1133,16 @@ class Fits(Scatter):
                     )
 
                     # evaluate the mean start-value for each group
-                    if val[2] == "index":
+                    if (
+                        val[2] == "index"
+                        and self._N_groups == self.param_dyn_df[key].nunique()
+                    ):
                         # avoid grouping with _param_assigns since anyway
                         # only a single value is given for each group
-                        meanstartvals = np.mean(meanstartvals, axis=1)
+                        meanstartvals = np.ma.mean(
+                            rectangularize(meanstartvals, return_masked=True),
+                            axis=1,
+                        ).compressed()
                     else:
                         # get a rectangularized list of indices for each
                         # parameter (instead of using a loop which can be VERY
-- 
2.43.0


From af5f35375a89c925d5b30f7f8f805037ded367bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:48 +0000
Subject: [PATCH 47/53] fix: results are written if no log-file is requested
 (logfile_level=None)

---
 rt1/rtprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 3730823..65ae829 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -940,7 +940,7 @@ class RTprocess(object):
                 queue=queue,
                 proc_counter=proc_counter,
                 dump_fit=dump_fit,
-                init_func=self._worker_configurer,
+                init_func=None if queue is None else self._worker_configurer,
                 init_args=(queue, logfile_level),
                 create_index=create_index,
             )
@@ -1122,7 +1122,7 @@ class RTprocess(object):
                 proc_counter=proc_counter,
                 print_progress=print_progress,
                 create_index=create_index,
-                init_func=self._worker_configurer,
+                init_func=None if queue is None else self._worker_configurer,
                 init_args=(queue, logfile_level),
                 **kwargs,
             )
-- 
2.43.0


From 71449c55a26aeb8a6ba383fae993d2b5dcf94dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:06 +0000
Subject: [PATCH 48/53] fix: final output looks up its fits anew and closes
 "fit_db.h5" afterwards

---
 rt1/rtprocess.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 65ae829..bd57423 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1134,6 +1134,8 @@ class RTprocess(object):
             raise err
 
         finally:
+            self._release_useres()
+
             # turn off capturing warnings
             logging.captureWarnings(False)
 
@@ -1331,11 +1333,23 @@ class RTprocess(object):
             else:
                 raise ex
 
-    def _get_files(self, use_N_files=None, use_dumps=False):
+    def _set_useres(self, use_dumps=False):
+        # select the results used to load the fits
         if not hasattr(self, "_useres"):
             self._useres = getattr(
                 RTresults(self.dumppath, use_dumps=use_dumps), self.proc_cls.dumpfolder
             )
+
+    def _release_useres(self):
+        # close the HDF-container (an open file-handle would block any subsequent
+        # attempt to write to the file) and make sure that the next run looks for
+        # the available fits again
+        useres = self.__dict__.pop("_useres", None)
+        if useres is not None and "fit_db" in useres._hdf_paths:
+            useres.fit_db.store.close()
+
+    def _get_files(self, use_N_files=None, use_dumps=False):
+        self._set_useres(use_dumps=use_dumps)
         # get dump-files
         dumpiter = self._useres.dump_files
 
@@ -1527,13 +1541,16 @@ class RTprocess(object):
                 log.progress(f"exporting parameters from '{dumpfolder}' dumpfolder")
 
         # ----- get list of paths to fit-objects
-        self._useres = getattr(res, dumpfolder)
+        useres = self._useres = getattr(res, dumpfolder)
         # load the first fit-object to pre-load fn-coefficients
-        if hasattr(self._useres, "fit_db"):
-            fit0_ID = self._useres.fit_db.IDs.values.flat[0]
-        else:
-            fit0_ID = 0
-        fit0 = self._useres.load_fit(fit0_ID)
+        try:
+            if hasattr(useres, "fit_db"):
+                fit0_ID = useres.fit_db.IDs.values.flat[0]
+            else:
+                fit0_ID = 0
+            fit0 = useres.load_fit(fit0_ID)
+        finally:
+            self._release_useres()
 
         fn_evals = None
         if pre_evaluate_fn_coefs:
@@ -1560,6 +1577,8 @@ class RTprocess(object):
         )
 
         # ----- run finalout generation
+        # (use the fits of the selected dumpfolder)
+        self._useres = useres
         out = self.run_finaloutput(
             ncpu=ncpu,
             use_N_files=use_nfiles,
-- 
2.43.0


From 95ffef4a5ff0c5c56ed5ab7f355f05cbb524c99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:06 +0000
Subject: [PATCH 49/53] fix: export_data_to_HDF works with dump-files

---
 rt1/rtprocess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index bd57423..da2f360 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1544,10 +1544,10 @@ class RTprocess(object):
         useres = self._useres = getattr(res, dumpfolder)
         # load the first fit-object to pre-load fn-coefficients
         try:
-            if hasattr(useres, "fit_db"):
-                fit0_ID = useres.fit_db.IDs.values.flat[0]
-            else:
+            if useres._use_dumps:
                 fit0_ID = 0
+            else:
+                fit0_ID = useres.fit_db.IDs.values.flat[0]
             fit0 = useres.load_fit(fit0_ID)
         finally:
             self._release_useres()
-- 
2.43.0


From 7af3a9f44d2b3c061a313e6c69e84b40b0b12bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:06 +0000
Subject: [PATCH 50/53] fix: the fitlist of run_finaloutput can be a list of
 paths to dump-files

---
 rt1/rtprocess.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index da2f360..30795a1 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1112,6 +1112,11 @@ class RTprocess(object):
             if fitlist is None:
                 # use fits from .dump file if no fitlist is provided
                 fitlist = self._get_files(use_N_files=use_N_files, use_dumps=use_dumps)
+            else:
+                self._set_useres(use_dumps=use_dumps)
+                fitlist = [
+                    i if isinstance(i, dict) else dict(ID=Path(i)) for i in fitlist
+                ]
             res = self._run_finalout(
                 ncpu,
                 fitlist=fitlist,
-- 
2.43.0


From 24c2d15b6c41e3525f3958e13d3ed2007a7c8d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:06 +0000
Subject: [PATCH 51/53] fix: result-folders whose name contains a dot are
 accessible via their name

---
 rt1/rtresults.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index d52440f..b3ea6d6 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -138,12 +138,12 @@ class RTresults(object):
 
     def _addresult(self, path):
         if self._check_folderstructure(path):
-            self._paths[path.stem] = path
-            log.info(f"... adding result {path.stem}")
+            self._paths[path.name] = path
+            log.info(f"... adding result {path.name}")
             setattr(
                 self,
-                path.stem,
-                self._RT1_fitresult(path.stem, path, self._use_dumps),
+                path.name,
+                self._RT1_fitresult(path.name, path, self._use_dumps),
             )
 
     class _RT1_fitresult(object):
-- 
2.43.0


From 5fa1f2a8bde54979722a0fbf08e06fefc82f514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:42 +0000
Subject: [PATCH 52/53] fix: final output from dump-files works for relative
 save-paths

---
 rt1/rtprocess.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 30795a1..0f9ccb0 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1357,6 +1357,9 @@ class RTprocess(object):
         self._set_useres(use_dumps=use_dumps)
         # get dump-files
         dumpiter = self._useres.dump_files
+        if self._useres._use_dumps:
+            # "dump_files" yields paths (which might be relative to the current folder)
+            dumpiter = map(Path, dumpiter)
 
         if use_N_files is not None:
             fitlist = list(map(lambda x: dict(ID=x), islice(dumpiter, use_N_files)))
-- 
2.43.0


From cc24133d9680f56c71617cc4cdd61d4f0b2662ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:16 +0000
Subject: [PATCH 53/53] fix: the fit-database used for the final output is
 closed on every exit

---
 rt1/rtprocess.py | 70 +++++++++++++++++++++++++-----------------------
 1 file changed, 37 insertions(+), 33 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 0f9ccb0..aad22cf 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1109,28 +1109,31 @@ class RTprocess(object):
                 # file to which the process is writing can not be generated!
                 listener.start()
 
-            if fitlist is None:
-                # use fits from .dump file if no fitlist is provided
-                fitlist = self._get_files(use_N_files=use_N_files, use_dumps=use_dumps)
-            else:
-                self._set_useres(use_dumps=use_dumps)
-                fitlist = [
-                    i if isinstance(i, dict) else dict(ID=Path(i)) for i in fitlist
-                ]
-            res = self._run_finalout(
-                ncpu,
-                fitlist=fitlist,
-                save_path=save_path,
-                use_config=use_config,
-                postprocess=postprocess,
-                queue=queue,
-                proc_counter=proc_counter,
-                print_progress=print_progress,
-                create_index=create_index,
-                init_func=None if queue is None else self._worker_configurer,
-                init_args=(queue, logfile_level),
-                **kwargs,
-            )
+            try:
+                if fitlist is None:
+                    # use fits from .dump file if no fitlist is provided
+                    fitlist = self._get_files(use_N_files=use_N_files, use_dumps=use_dumps)
+                else:
+                    self._set_useres(use_dumps=use_dumps)
+                    fitlist = [
+                        i if isinstance(i, dict) else dict(ID=Path(i)) for i in fitlist
+                    ]
+                res = self._run_finalout(
+                    ncpu,
+                    fitlist=fitlist,
+                    save_path=save_path,
+                    use_config=use_config,
+                    postprocess=postprocess,
+                    queue=queue,
+                    proc_counter=proc_counter,
+                    print_progress=print_progress,
+                    create_index=create_index,
+                    init_func=None if queue is None else self._worker_configurer,
+                    init_args=(queue, logfile_level),
+                    **kwargs,
+                )
+            finally:
+                self._release_useres()
 
             return res
 
@@ -1139,8 +1142,6 @@ class RTprocess(object):
             raise err
 
         finally:
-            self._release_useres()
-
             # turn off capturing warnings
             logging.captureWarnings(False)
 
@@ -1587,15 +1588,18 @@ class RTprocess(object):
         # ----- run finalout generation
         # (use the fits of the selected dumpfolder)
         self._useres = useres
-        out = self.run_finaloutput(
-            ncpu=ncpu,
-            use_N_files=use_nfiles,
-            use_config=use_config,
-            finalout_name=finalout_name,
-            postprocess=func,
-            save_path=savepath,
-            **kwargs,
-        )
+        try:
+            out = self.run_finaloutput(
+                ncpu=ncpu,
+                use_N_files=use_nfiles,
+                use_config=use_config,
+                finalout_name=finalout_name,
+                postprocess=func,
+                save_path=savepath,
+                **kwargs,
+            )
+        finally:
+            self._release_useres()
 
         return out
 
-- 
2.43.0

