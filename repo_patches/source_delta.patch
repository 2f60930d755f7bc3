From f1c68d04ddef007d42c2d289388251497929dd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:11 +0000
Subject: [PATCH 01/44] fix: no analysis windows, not a negative number, for a
 signal shorter than the window

---
 sample/utils/dsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/utils/dsp.py b/sample/utils/dsp.py
index ae93ee5..ab909e1 100644
--- a/sample/utils/dsp.py
+++ b/sample/utils/dsp.py
@@ -381,7 +381,7 @@ def n_windows(input_size: int, wsize: int, hop: Optional[int] = None) -> int:
     int: Number of windows"""
   if hop is None:
     hop = wsize
-  return 1 + (input_size - wsize) // hop
+  return max(0, 1 + (input_size - wsize) // hop)
 
 
 def overlapping_windows(a: np.ndarray,
-- 
2.43.0


From f20a2a8edd22c05258c244208f24f3388dbf894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:26 +0000
Subject: [PATCH 02/44] fix: forget the beat decisions of previous fits when
 fitting again

---
 sample/beatsdrop/sample.py | 5 +++++
 sample/sample.py           | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/sample/beatsdrop/sample.py b/sample/beatsdrop/sample.py
index ea21542..697c910 100644
--- a/sample/beatsdrop/sample.py
+++ b/sample/beatsdrop/sample.py
@@ -84,6 +84,11 @@ class SAMPLEBeatsDROP(sample.sample.SAMPLE):
 
   _PARAM_MATRIX_NROWS: int = 4
 
+  def _reset_intermediate(self):
+    """Forget the intermediate results of previous fits"""
+    super()._reset_intermediate()
+    self.beat_decisor.intermediate.reset()
+
   def _fit_track(self, i: int, t: np.ndarray,
                  track: dict) -> Sequence[Tuple[float, float, float, float]]:
     """Fit parameters for one track.
diff --git a/sample/sample.py b/sample/sample.py
index 9125851..3542cf0 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -155,6 +155,10 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
 
   _PARAM_MATRIX_NROWS: int = 3
 
+  def _reset_intermediate(self):
+    """Forget the intermediate results of previous fits. Results of the
+    sinusoidal analysis are forgotten by the sinusoidal model itself"""
+
   @utils.warnings_simplefilter(action="ignore",
                                category=RuntimeWarning,
                                toggle=("ignore_warnings", True))
@@ -173,6 +177,7 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
     for k, v in kwargs.items():
       (sample_kwargs if k in self.get_params() else ctx_kwargs)[k] = v
     self.set_params(**sample_kwargs)
+    self._reset_intermediate()
 
     with sample._training.sample_training_context(self, **kwargs) as fit_args:  # pylint: disable=W0212
       # Process frames
-- 
2.43.0


From f4d2fb0c51b31c52e62c1fc16268154307bda0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:11 +0000
Subject: [PATCH 03/44] fix: no lost or misplaced entries when workers append
 to a shared storage at the same time

---
 sample/_training.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/sample/_training.py b/sample/_training.py
index edd94f4..38015b4 100644
--- a/sample/_training.py
+++ b/sample/_training.py
@@ -5,6 +5,7 @@ import functools
 import itertools
 import multiprocessing
 import multiprocessing.managers
+import threading
 from typing import Generator, Callable, Iterable, Optional
 
 import sample.utils
@@ -14,13 +15,36 @@ mp = multiprocessing
 utils = sample.utils
 
 
+class _SharedOptionalStorage(utils.learn.OptionalStorage):
+  """Optional storage for manager servers, which handle
+  the requests of each client in a different thread"""
+  # Not in the instances, because these have to be serializable
+  _lock = threading.RLock()
+
+  def __getitem__(self, key):
+    with self._lock:
+      return super().__getitem__(key)
+
+  def get_state(self, deepcopy: bool = True):
+    with self._lock:
+      return super().get_state(deepcopy=deepcopy)
+
+  def reset(self):
+    with self._lock:
+      super().reset()
+
+  def append(self, key, value, index=None):
+    with self._lock:
+      return super().append(key, value, index)
+
+
 class _OptionalStorageManager(mp.managers.SyncManager):
   """Multiprocessing manager for :class:`sample.utils.learn.OptionalStorage`"""
 
 
 _OptionalStorageManager.register(
     "OptionalStorage",
-    utils.learn.OptionalStorage,
+    _SharedOptionalStorage,
     exposed=(
         *mp.managers.public_methods(utils.learn.OptionalStorage),
         "__getitem__",
-- 
2.43.0


From 838145897b5649a81a4390b928f5a375f499c9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:00 +0000
Subject: [PATCH 04/44] fix: parallel fit progress stays within the total and
 reaches it

---
 sample/_training.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sample/_training.py b/sample/_training.py
index 38015b4..06e4281 100644
--- a/sample/_training.py
+++ b/sample/_training.py
@@ -53,6 +53,8 @@ _OptionalStorageManager.register(
 
 class FitArgs:
   """Arguments for :func:`SAMPLE.fit`"""
+  # Whether the starmap function updates the progress by itself
+  starmap_updates: bool = False
 
   def __init__(self, starmap=itertools.starmap, progressbar=None) -> None:
     self.starmap = starmap
@@ -67,7 +69,8 @@ class FitArgs:
       self.progress_start(tot)
     for i in self.starmap(func, it):
       yield i
-      self.progress_update()
+      if not self.starmap_updates:
+        self.progress_update()
     if tot is not None:
       self.progress_stop()
 
@@ -96,6 +99,7 @@ def _progress_starmap(pool: mp.Pool,
     if refresh_time:
       not_ready[0].wait(refresh_time)
     not_ready = [r for r in not_ready if not r.ready()]
+  fit_args.progress_update(len(results))
   return (r.get() for r in results)
 
 
@@ -148,6 +152,7 @@ def sample_training_context(model: "sample.sample.SAMPLE",
     fit_args_ = copy.copy(fit_args)
     if pool is not None:
       fit_args_.starmap = functools.partial(_progress_starmap, pool, fit_args_)
+      fit_args_.starmap_updates = True
     yield fit_args_
 
 
-- 
2.43.0


From a0eac1697a0b1fa022b4fd2f1144ed99985bdeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:39 +0000
Subject: [PATCH 05/44] fix: export a model without modes

---
 sample/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/sample.py b/sample/sample.py
index 3542cf0..57c059f 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -280,7 +280,7 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
         "fragmentSize": 1.0,
         "freqs": self.freqs_[m_ord].tolist(),
         "decays": self.decays_[m_ord].tolist(),
-        "weights": np.full(n_modes, 1 / n_modes).tolist(),
+        "weights": np.full(n_modes, 1 / max(n_modes, 1)).tolist(),
         "gains": [self.amps_[m_ord].tolist()],
     }
 
-- 
2.43.0


From 3873f50a0f9aeaa5f5cf4a7cc5a912af86e537b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:39 +0000
Subject: [PATCH 06/44] fix: resynthesize with starting phases in any sequence,
 or none

---
 sample/sample.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sample/sample.py b/sample/sample.py
index 57c059f..4baf948 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -312,8 +312,9 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
       else:
         n_modes = self.max_n_modes
     m_ord = self.mode_argsort_(order=order, reverse=reverse)[:n_modes]
-    if "phases" in kwargs and not isinstance(kwargs["phases"], str):
-      kwargs["phases"] = kwargs["phases"][m_ord]
+    phases = kwargs.get("phases", None)
+    if phases is not None and not isinstance(phases, str):
+      kwargs["phases"] = np.asarray(phases)[m_ord]
     return additive_synth(x, self.freqs_[m_ord], self.decays_[m_ord],
                           self.amps_[m_ord], **kwargs)
 
-- 
2.43.0


From 45527be348f9f6d29247e4fb8c350033d19df37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:02 +0000
Subject: [PATCH 07/44] fix: accept the deprecated sine_tracker_cls argument

---
 sample/sms/sm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/sms/sm.py b/sample/sms/sm.py
index bc0b6cd..6ecaa16 100644
--- a/sample/sms/sm.py
+++ b/sample/sms/sm.py
@@ -213,7 +213,7 @@ def _decorate_sinusoidal_model(func):
   @utils.deprecated_argument("freq_dev_offset", "tracker__freq_dev_offset")
   @utils.deprecated_argument("freq_dev_slope", "tracker__freq_dev_slope")
   @utils.deprecated_argument("sine_tracker_cls",
-                             convert=lambda sine_tracker_cls, **kwargs:
+                             convert=lambda _, sine_tracker_cls, **kwargs:
                              ("tracker", sine_tracker_cls()))
   @utils.deprecated_argument("save_intermediate", "intermediate__save")
   @utils.deprecated_argument("fs", "tracker__fs")
-- 
2.43.0


From 5407a254249512adf1717499cb056119b9f80452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:36 +0000
Subject: [PATCH 08/44] fix: accept the deprecated sample_fn and sample_kw
 arguments

---
 sample/optimize.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/sample/optimize.py b/sample/optimize.py
index 9205450..fb5b9f0 100644
--- a/sample/optimize.py
+++ b/sample/optimize.py
@@ -70,6 +70,15 @@ def sample_kwargs_remapper(sinusoidal__log_n: Optional[int] = None,
   return kwargs
 
 
+def _remap_sample_kw(sample_kw: Optional[Dict[str, Any]] = None,
+                     remap: Optional[Callable[..., Dict[
+                         str, Any]]] = sample_kwargs_remapper,
+                     **_) -> Dict[str, Any]:
+  """Remap the deprecated :data:`sample_kw` of :class:`SAMPLEOptimizer`"""
+  sample_kw = utils.default_kws(sample_kw)
+  return sample_kw if remap is None else remap(**sample_kw)
+
+
 class SAMPLEOptimizer:
   """Hyperparameter optimizer for a SAMPLE model,
   based on Gaussian Process minimization
@@ -93,16 +102,14 @@ class SAMPLEOptimizer:
   @utils.deprecated_argument(
       "sample_fn",
       convert=lambda _, **kwargs:
-      ("model", kwargs["sample_fn"]
-       (**kwargs.get("remap", sample_kwargs_remapper)({} if kwargs.get(
-           "sample_kw", None) is None else kwargs.get("sample_kw", None)))),
+      ("model", kwargs["sample_fn"](**_remap_sample_kw(**kwargs))),
       msg="Provide a sample.SAMPLE instance with the desired parameters, "
       "instead of constructor and arguments")
   @utils.deprecated_argument(
       "sample_kw",
       convert=lambda _, **kwargs:
-      ("model", kwargs.get("model", sample.SAMPLE()).set_params(**kwargs.get(
-          "remap", sample_kwargs_remapper)(**kwargs["sample_kw"]))),
+      ("model", kwargs.get("model", sample.SAMPLE()).set_params(
+          **_remap_sample_kw(**kwargs))),
       msg="Provide a sample.SAMPLE instance with the desired parameters, "
       "instead of constructor and arguments")
   def __init__(self,
-- 
2.43.0


From d283aa563c4f0caf02fe395168ebdf28834e9a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:36 +0000
Subject: [PATCH 09/44] fix: do not ignore deprecated arguments when fitting

---
 sample/sample.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sample/sample.py b/sample/sample.py
index 4baf948..a6259c0 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -162,6 +162,7 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
   @utils.warnings_simplefilter(action="ignore",
                                category=RuntimeWarning,
                                toggle=("ignore_warnings", True))
+  @_decorate_sample
   def fit(self, x: np.ndarray, y=None, **kwargs):
     """Analyze audio data
 
@@ -174,8 +175,12 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
       SAMPLE: self"""
     sample_kwargs = {}
     ctx_kwargs = {}
+    own_params = self.get_params(deep=False)
     for k, v in kwargs.items():
-      (sample_kwargs if k in self.get_params() else ctx_kwargs)[k] = v
+      # Nested parameters are checked by the sub-models,
+      # because they could be deprecated
+      is_param = k.partition("__")[0] in own_params
+      (sample_kwargs if is_param else ctx_kwargs)[k] = v
     self.set_params(**sample_kwargs)
     self._reset_intermediate()
 
-- 
2.43.0


From b7c9d2ca1f47600654c677de0b7d217a023fffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:00 +0000
Subject: [PATCH 10/44] fix: accept converted arguments together with
 positional ones

---
 sample/sms/sm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/sms/sm.py b/sample/sms/sm.py
index 6ecaa16..f5d3652 100644
--- a/sample/sms/sm.py
+++ b/sample/sms/sm.py
@@ -204,7 +204,7 @@ def _decorate_sinusoidal_model(func):
   @utils.deprecated_argument("min_sine_dur", "tracker__min_sine_dur")
   @utils.deprecated_argument(
       "safe_sine_len",
-      convert=lambda _, **kwargs:
+      convert=lambda *_, **kwargs:
       ("tracker__min_sine_dur",
        max(-1 if kwargs["safe_sine_len"] is None else kwargs["safe_sine_len"],
            kwargs.get("tracker__min_sine_dur", 1))),
@@ -213,7 +213,7 @@ def _decorate_sinusoidal_model(func):
   @utils.deprecated_argument("freq_dev_offset", "tracker__freq_dev_offset")
   @utils.deprecated_argument("freq_dev_slope", "tracker__freq_dev_slope")
   @utils.deprecated_argument("sine_tracker_cls",
-                             convert=lambda _, sine_tracker_cls, **kwargs:
+                             convert=lambda *_, sine_tracker_cls, **kwargs:
                              ("tracker", sine_tracker_cls()))
   @utils.deprecated_argument("save_intermediate", "intermediate__save")
   @utils.deprecated_argument("fs", "tracker__fs")
-- 
2.43.0


From 0239587ef972660f987737d93bfc9baba9497c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:57 +0000
Subject: [PATCH 11/44] fix: A-weights in decibel are stored in the given
 output array

---
 sample/psycho.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index a660c9b..2851a83 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -375,7 +375,9 @@ def a_weighting(f: float,
   Returns:
     array: A-weights"""
   if db:
-    return dsp_utils.a2db(a_weighting(f, db=False, out=out)) - _a_weight_1kHz_db
+    a_weighting(f, db=False, out=out)
+    dsp_utils.a2db(out, out=out)
+    return np.subtract(out, _a_weight_1kHz_db, out=out)
   f2 = np.empty_like(out)
   np.square(f, out=f2)
   # f^2 + 107.7^2
-- 
2.43.0


From 1d3f8c76c45be662ed08d071ecff0501adc18dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:57 +0000
Subject: [PATCH 12/44] fix: gammatone functions of scalars, of integers, and
 written over their input

---
 sample/psycho.py | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index 2851a83..75844c2 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -598,10 +598,9 @@ class GammatoneFilter:
 
     Returns:
       array: The IR envelope function evaluated at :data:`t`"""
-    tmp = np.empty_like(t)
     # t + t_c
-    t_ = np.empty_like(t)
-    np.add(t, t_c, out=t_)
+    t_ = np.add(t, t_c)
+    tmp = np.empty_like(t_)
     # u(t + t_c)
     np.greater_equal(t_, 0, out=out)
     # u(t + t_c) * (t + t_c)^(n-1)
@@ -648,22 +647,12 @@ class GammatoneFilter:
 
     Returns:
       array: The wave function evaluated at :data:`t`"""
-    out = self.envelope(t,
-                        out=out,
-                        **({
-                            "dtype": complex
-                        } if analytic and out is None else {}))
-    tmp = np.empty_like(out)
     # cos(2pi * f * t + phi)
-    np.multiply(2 * np.pi * self.f, t, out=tmp)
-    np.add(tmp, self.phi, out=tmp)
-    if analytic:
-      np.multiply(1j, tmp, out=tmp)
-      np.exp(tmp, out=tmp)
-    else:
-      np.cos(tmp, out=tmp)
-    np.multiply(out, tmp, out=out)
-    return out
+    # Computed before the envelope because out could be the time axis itself
+    tmp = np.multiply(2 * np.pi * self.f, t)
+    tmp = np.add(tmp, self.phi)
+    tmp = np.exp(np.multiply(1j, tmp)) if analytic else np.cos(tmp)
+    return np.multiply(self.envelope(t, out=out), tmp, out=out)
 
   @utils.deprecated_argument("analytical", "analytic")
   def ir(self,
@@ -689,16 +678,16 @@ class GammatoneFilter:
         raise ValueError(
             "Please, specify either the time axis or a sample frequency")
       t = np.arange(self.ir_size(fs=fs, **kwargs)) / fs - self.t_c
-    out = self.wavefun(t, analytic=analytic, out=out)
+    ir = self.wavefun(t, analytic=analytic, out=out)
     # Scale
     a = self.a
     if self.normalize:
       # Divide a by the square norm of ir (can be complex)
       a = (1 if a is None else a) / np.sqrt(
-          np.real(np.dot(out, np.conjugate(out))))
+          np.real(np.dot(ir, np.conjugate(ir))))
     if a is not None:
-      np.multiply(a, out, out=out)
-    return out
+      ir = np.multiply(a, ir, out=out)
+    return ir
 
 
 class GammatoneFilterbank:
-- 
2.43.0


From bd2cd37ad92210b6b8165810441bcf0157aa0b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:57 +0000
Subject: [PATCH 13/44] fix: modal energies can be stored in place of the
 decays

---
 sample/sample.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sample/sample.py b/sample/sample.py
index a6259c0..b258aa4 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -30,8 +30,7 @@ def modal_energy(a: np.ndarray,
   Returns:
     array: Energies"""
   # d * a^2 / 4
-  np.square(a, out=out)
-  np.multiply(out, d, out=out)
+  np.multiply(np.square(a), d, out=out)
   np.true_divide(out, 4, out=out)
   return out
 
-- 
2.43.0


From f2371818c728f98137621a1bf0e23152bcce2b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:24 +0000
Subject: [PATCH 14/44] fix: accept not-a-number and infinite values in the
 settings entries

---
 sample/widgets/settings.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/sample/widgets/settings.py b/sample/widgets/settings.py
index 1a124e5..bac889f 100644
--- a/sample/widgets/settings.py
+++ b/sample/widgets/settings.py
@@ -1,6 +1,7 @@
 """Settings tab"""
 import functools
 import inspect
+import math
 from tkinter import messagebox
 from typing import Any, Callable, Dict, Optional, Sequence, Tuple, Type, Union
 
@@ -39,7 +40,21 @@ def try_func(func: Callable,
   return func_
 
 
-try_float = try_func(float, ValueError, 0.)
+def try_float(x: str, dflt: Optional[float] = 0.) -> float:
+  """Custom function for parsing floats from strings
+
+  Args:
+    x (str): String to parse
+    dflt (float): Default value to return on parse error (including
+      not-a-number values)
+
+  Returns:
+    float: Parsed value"""
+  try:
+    x = float(x)
+  except ValueError:
+    return dflt
+  return dflt if math.isnan(x) else x
 
 
 def custom_bool(x: str) -> bool:
@@ -69,7 +84,7 @@ def strip_time_parse(x: str) -> Optional[float]:
     x = float(x)
   except ValueError:
     return None
-  if x <= 0:
+  if not x > 0:
     return None
   return x
 
@@ -123,10 +138,9 @@ def custom_positive_int(x: str, dflt: Optional[int] = 1) -> int:
   Returns:
     int: Integer value"""
   try:
-    x = float(x)
-  except ValueError:
+    return int(max(float(x), 1))
+  except (ValueError, OverflowError):
     return dflt
-  return int(max(x, 1))
 
 
 def next_power_of_2(x: str) -> int:
-- 
2.43.0


From 93c01ca1a542f9eda2c79896a51d146246dace96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:24 +0000
Subject: [PATCH 15/44] fix: do not hang on an analysis window too large for
 memory

---
 sample/widgets/settings.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/sample/widgets/settings.py b/sample/widgets/settings.py
index bac889f..ff1d01c 100644
--- a/sample/widgets/settings.py
+++ b/sample/widgets/settings.py
@@ -1,10 +1,12 @@
 """Settings tab"""
 import functools
 import inspect
+import itertools
 import math
 from tkinter import messagebox
 from typing import Any, Callable, Dict, Optional, Sequence, Tuple, Type, Union
 
+import numpy as np
 import ttkthemes
 from matplotlib.backends import _backend_tk
 from scipy import signal
@@ -191,17 +193,13 @@ def postprocess_windows(sinusoidal__n: int, wsize: int,
   Returns:
     dict, dict: Postprocessed settings and parameters as dictionaries"""
   w = None
-  wsize = min(wsize, sinusoidal__n)
-  while True:
+  sizes = min(max(wsize, 1), sinusoidal__n), min(4096, sinusoidal__n)
+  for wsize, wtype in itertools.product(sizes, (wtype, "blackman")):
     try:
       w = signal.get_window(window=wtype, Nx=wsize)
-    except ValueError:
-      if wsize < 1:
-        wsize = 4096
-      else:
-        wtype = "blackman"
+    except (ValueError, IndexError, MemoryError):
       continue
-    else:
+    if np.size(w) == wsize:
       break
   in_kw = {"sinusoidal__n": sinusoidal__n, "wsize": wsize, "wtype": wtype}
   out_kw = {"sinusoidal__n": sinusoidal__n, "sinusoidal__w": w}
-- 
2.43.0


From e6e7f22795d3a4a2f67b518a39ed2b8cfd59e3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:16 +0000
Subject: [PATCH 16/44] fix: parse the values loaded from the settings file
 like those typed

---
 sample/widgets/settings.py | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/sample/widgets/settings.py b/sample/widgets/settings.py
index ff1d01c..89cfe59 100644
--- a/sample/widgets/settings.py
+++ b/sample/widgets/settings.py
@@ -65,6 +65,7 @@ def custom_bool(x: str) -> bool:
     x (str): String to parse
   Returns:
     bool: Boolean value"""
+  x = str(x)
   if x.lower() in ("false", "f", ""):
     return False
   try:
@@ -145,6 +146,23 @@ def custom_positive_int(x: str, dflt: Optional[int] = 1) -> int:
     return dflt
 
 
+_window_types = sorted(
+    ("boxcar", "triang", "blackman", "hamming", "hann", "bartlett", "flattop",
+     "parzen", "bohman", "blackmanharris", "nuttall", "barthann", "cosine",
+     "exponential", "tukey", "taylor"))
+
+
+def window_type(x: str) -> str:
+  """Custom function for parsing window types from strings
+
+  Args:
+    x (str): String to parse
+
+  Returns:
+    str: Window type"""
+  return x if x in _window_types else "blackman"
+
+
 def next_power_of_2(x: str) -> int:
   """Parse floats from strings and then round them to next power of 2
   Args:
@@ -286,11 +304,10 @@ _settings = (
             "window type",
         "init_value":
             "blackman",
+        "get_fn":
+            window_type,
         "options":
-            sorted(
-                ("boxcar", "triang", "blackman", "hamming", "hann", "bartlett",
-                 "flattop", "parzen", "bohman", "blackmanharris", "nuttall",
-                 "barthann", "cosine", "exponential", "tukey", "taylor")),
+            _window_types,
         "tooltip":
             "FFT analysis window type",
     }),
@@ -349,12 +366,14 @@ _settings = (
         "label": "reverse",
         "init_value": True,
         "boolean": True,
+        "set_fn": custom_bool,
         "tooltip": "If True, then process audio in reverse order of time",
     }),
     ("sinusoidal__padded", {
         "label": "zero-padding",
         "init_value": False,
         "boolean": True,
+        "set_fn": custom_bool,
         "tooltip": "If True, then zero-pad the audio to center the first "
                    "window on the first sample",
     }),
@@ -370,12 +389,14 @@ _settings = (
         "label": "BeatsDROP",
         "init_value": False,
         "boolean": True,
+        "set_fn": custom_bool,
         "tooltip": "If True, apply BeatsDROP to de-couple beats",
     }),
     ("parallel", {
         "label": "multiprocessing",
         "init_value": False,
         "boolean": True,
+        "set_fn": custom_bool,
         "tooltip": "If True, parallelize BeatsDROP "
                    "amongst multiple processes",
     }),
@@ -588,14 +609,13 @@ class SettingsTab(utils.DataOnRootMixin, tk.Frame):
     """Callback for updating parameters from the settings"""
     ttk_theme = userfiles.UserTtkTheme(self.settings_file)
     prev_theme = ttk_theme.get()
-    settings = {}
     if from_file and self.settings_file.is_valid(
     ) and self.settings_file.exists():
-      settings = self.settings_file.load_json()
+      for k, v in self.settings_file.load_json().items():
+        if k in self._settings:
+          self._settings[k].set(v)
     settings = {
-        k: settings.get(k, s.get())
-        for k, s in self._settings.items()
-        if not s.is_spacer
+        k: s.get() for k, s in self._settings.items() if not s.is_spacer
     }
     params = settings
     for func in self._postprocess:
-- 
2.43.0


From d8471767d94ef7fcbc6104a63cd534d5ec41abf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:18 +0000
Subject: [PATCH 17/44] fix: large integers in the settings entries are read
 exactly

---
 sample/widgets/settings.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sample/widgets/settings.py b/sample/widgets/settings.py
index 89cfe59..ae95988 100644
--- a/sample/widgets/settings.py
+++ b/sample/widgets/settings.py
@@ -140,10 +140,12 @@ def custom_positive_int(x: str, dflt: Optional[int] = 1) -> int:
 
   Returns:
     int: Integer value"""
-  try:
-    return int(max(float(x), 1))
-  except (ValueError, OverflowError):
-    return dflt
+  for parse in (int, float):
+    try:
+      return int(max(parse(x), 1))
+    except (ValueError, OverflowError):
+      continue
+  return dflt
 
 
 _window_types = sorted(
-- 
2.43.0


From 9db990ec279e54947e031fdc25e30c22e79fe677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:53 +0000
Subject: [PATCH 18/44] fix: an interrupted save does not damage the user file

---
 sample/widgets/userfiles.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/sample/widgets/userfiles.py b/sample/widgets/userfiles.py
index f9d1363..ff2b51a 100644
--- a/sample/widgets/userfiles.py
+++ b/sample/widgets/userfiles.py
@@ -43,6 +43,27 @@ class UserDir:
       with open(self.path, encoding=encoding, **kwargs) as f:
         yield f
 
+    @contextlib.contextmanager
+    def _replacing(self):
+      """Helper context manager for writing the file as a whole. The file is
+      written under another name, and it replaces the previous one only when
+      it is complete
+
+      Yields:
+        str: Path of the file to write"""
+      path = os.path.realpath(self.path)
+      os.makedirs(os.path.dirname(path), exist_ok=True)
+      tmp = f"{path}.tmp"
+      try:
+        yield tmp
+        with open(tmp, mode="rb") as f:
+          os.fsync(f.fileno())
+        os.replace(tmp, path)
+      except BaseException:
+        with contextlib.suppress(OSError):
+          os.remove(tmp)
+        raise
+
     def is_valid(self) -> bool:
       """Check that path is not :data:`None` or empty"""
       return self.userdir.is_valid() and self.subpath is not None and len(
@@ -62,8 +83,9 @@ class UserDir:
       Args:
         data: Python object to serialize
         kwargs: Keyword arguments for :func:`json.dump`"""
-      with self.open(mode="w") as f:
-        json.dump(data, f, **kwargs)
+      with self._replacing() as path:
+        with open(path, mode="w", encoding="utf-8") as f:
+          json.dump(data, f, **kwargs)
 
     def load_json(self, **kwargs):
       """Load JSON from the file and deserialize as a Python object
@@ -78,8 +100,8 @@ class UserDir:
 
       Args:
         data: Python object to serialize"""
-      os.makedirs(os.path.dirname(self.path), exist_ok=True)
-      pickle.save_pickled(data, self.path)
+      with self._replacing() as path:
+        pickle.save_pickled(data, path)
 
     def load_pickled(self):
       """Load pickled data from the file and
-- 
2.43.0


From 1b925ef5fd4049951fcd9da4c53d80c08a565e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:03 +0000
Subject: [PATCH 19/44] fix: trim region of an audio without onsets

---
 sample/widgets/audioload.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index 62348c2..dff1c52 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -180,6 +180,8 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
     onsets = np.flatnonzero(dsp.onset_detection(self.audio_x))
     logging.debug("Onsets: %s", onsets)
     onsets = np.array([*onsets, self.audio_x.size])
+    if onsets.size < 2:  # no onsets: do not trim
+      onsets = np.array([0, self.audio_x.size])
     onset_max_i = np.argmax(np.diff(onsets)).flatten()[0]
     self.audio_trim_stop = onsets[onset_max_i + 1]
     self.audio_trim_start = onsets[onset_max_i]
-- 
2.43.0


From 521b3efe81c5bbfb3aa06a49a164ee7963f3d2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:03 +0000
Subject: [PATCH 20/44] fix: load floating point, 8 bit and empty audio files

---
 sample/widgets/audioload.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index dff1c52..f29cf11 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -160,13 +160,19 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
         self.filedialog_dir_save = self.filedialog_dir
       try:
         sr, x = wavfile.read(filename)
+        if np.size(x) == 0:
+          raise ValueError(f"Empty audio file: {filename}")
+        if np.issubdtype(x.dtype, np.unsignedinteger):
+          half = (np.iinfo(x.dtype).max + 1) // 2  # offset binary
+          x = (x.astype(float) - half) / half
+        elif np.issubdtype(x.dtype, np.integer):
+          x = x / -np.iinfo(x.dtype).min
       except Exception as e:  # pylint: disable=W0703
         logging.error("Error loading audio: [%s] %s", type(e).__name__, e)
         messagebox.showerror(
             type(e).__name__,
             str(e) or "".join((type(e).__name__, "\n", "Filename: ", filename)))
       else:
-        x = x / -np.iinfo(x.dtype).min
         if np.ndim(x) > 1:
           x = np.mean(x, axis=-1)
         self.audio_x = x
-- 
2.43.0


From 0bba5e539bc9bcccf480ff105d1a08bc5b6de9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:03 +0000
Subject: [PATCH 21/44] fix: showing the trim times does not move the region,
 and any time is accepted

---
 sample/widgets/audioload.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index f29cf11..de1aa74 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -66,6 +66,8 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
       def trim_entry_cbk_(*args, **kwargs):  # pylint: disable=W0613
         try:
           tval = float(tvar.get())
+          if np.isnan(tval):
+            raise ValueError("not a number")
         except Exception as e:  # pylint: disable=W0703
           logging.warning("Error parsing trim %s value: %s",
                           "start" if start else "stop", e)
@@ -214,7 +216,8 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
         entries. Default is :data:`False`"""
     if self.audio_loaded:
       if not samples:
-        value = int(value * self.audio_sr)
+        value = min(max(value * self.audio_sr, 0), self.audio_x.size)
+        value = int(round(value))
       if start:
         self.audio_trim_start = min(self.audio_trim_stop - 1, max(0, value))
         logging.debug("Audio trim start: %d", self.audio_trim_start)
-- 
2.43.0


From 7440065105e82b18f0fa0f9198e35481e1d5f666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:03 +0000
Subject: [PATCH 22/44] fix: mouse buttons pressed or released outside of the
 audio plot

---
 sample/widgets/audioload.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index de1aa74..47bbeee 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -235,7 +235,8 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
       if self.toolbar_on:
         logging.debug("Press aborted: toolbar on")
         self._trim_side = None
-      elif self.audio_loaded and self._trim_side is None:
+      elif (self.audio_loaded and self._trim_side is None and
+            event.xdata is not None):
         x_i = int(event.xdata * self.audio_sr)
         self._trim_side = \
           abs(x_i - self.audio_trim_start) < abs(x_i - self.audio_trim_stop)
@@ -248,14 +249,15 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
         logging.debug("Release aborted: toolbar on")
         self._trim_side = None
       elif self.audio_loaded and self._trim_side is not None:
-        self.set_trim(
-            event.xdata,
-            start=self._trim_side,
-            samples=False,
-            update=True,
-            update_vars=True,
-        )
-        self._trim_side = None
+        start, self._trim_side = self._trim_side, None
+        if event.xdata is not None:
+          self.set_trim(
+              event.xdata,
+              start=start,
+              samples=False,
+              update=True,
+              update_vars=True,
+          )
 
   def update_plot(self, update_vars: bool = True):
     """Update the audio plot
-- 
2.43.0


From 6e2353f8e55dcf0c0d0382d5fc281ed5f6dfbf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:31 +0000
Subject: [PATCH 23/44] fix: restart the GUI only if a reload was requested

---
 sample/gui.py              | 4 +++-
 sample/widgets/settings.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sample/gui.py b/sample/gui.py
index 64bc129..c41dc1d 100644
--- a/sample/gui.py
+++ b/sample/gui.py
@@ -70,10 +70,12 @@ def run(*argv):
 
   ctx = multiprocessing.get_context()
   q = ctx.SimpleQueue()
-  while q.empty() or q.get():
+  reload = True
+  while reload:
     root = multiprocessing.Process(target=launch,
                                    args=(args,),
                                    kwargs={"reload_queue": q})
     root.start()
     root.join()
+    reload = not q.empty() and q.get()
   return 0
diff --git a/sample/widgets/settings.py b/sample/widgets/settings.py
index ae95988..b72ad16 100644
--- a/sample/widgets/settings.py
+++ b/sample/widgets/settings.py
@@ -657,4 +657,4 @@ class SettingsTab(utils.DataOnRootMixin, tk.Frame):
           })
         r = utils.get_root(self)
         r.master.should_reload = True
-        r.quit()
+        r.master.on_closing()
-- 
2.43.0


From 15ca36a21ff60f077944a42d2a7bfaa0bc7738f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:46 +0000
Subject: [PATCH 24/44] fix: results in the analysis tab are those of the last
 analysis

---
 sample/widgets/analysis.py | 69 +++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 27 deletions(-)

diff --git a/sample/widgets/analysis.py b/sample/widgets/analysis.py
index 1589d74..a5e5d1c 100644
--- a/sample/widgets/analysis.py
+++ b/sample/widgets/analysis.py
@@ -57,6 +57,8 @@ class AnalysisTab(utils.DataOnRootMixin, tk.Frame):
                **kwargs):
     super().__init__(*args, **kwargs)
     self._analisis_lock = threading.Lock()
+    self._analysis_x = None
+    self._analysis_sr = None
     self.filedialog_dir_save = None
     self.responsive(1, 1)
 
@@ -162,10 +164,8 @@ class AnalysisTab(utils.DataOnRootMixin, tk.Frame):
     self.ax[1].yaxis.tick_right()
     self.ax[1].yaxis.set_label_position("right")
 
-    x = self.audio_x[self.audio_trim_start:self.audio_trim_stop]
-    t = np.arange(x.size) / self.audio_sr
-    if self.audio_resynth_x is None:
-      self.audio_resynth_x = np.clip(self.sample_object.predict(t), -1, +1)
+    x = self._analysis_x
+    t = np.arange(x.size) / self._analysis_sr
     x_hat = self.audio_resynth_x
     self.ax[2].plot(
         t,
@@ -214,41 +214,55 @@ class AnalysisTab(utils.DataOnRootMixin, tk.Frame):
       if not proceed:
         logging.warning("Analysis in progress, ignoring user input")
         return
+      # The audio can change while the analysis is in progress
+      x = self.audio_x[self.audio_trim_start:self.audio_trim_stop]
+      sr = self.audio_sr
       try:
-        x = self.audio_x[self.audio_trim_start:self.audio_trim_stop]
-        self.sample_object, fit_kwargs = sample.sample_factory(
+        model, fit_kwargs = sample.sample_factory(
             progressbar=self.progressbar,
-            sinusoidal__tracker__fs=self.audio_sr,
+            sinusoidal__tracker__fs=sr,
             **self.sample_object_kwargs)
-        self.sample_object.fit(x, **fit_kwargs)
+        model.fit(x, **fit_kwargs)
+        x_hat = np.clip(model.predict(np.arange(x.size) / sr), -1, +1)
       except Exception as e:  # pylint: disable=W0703
-        messagebox.showerror(type(e).__name__, str(e))
+        self._set_analysis(None, None, None, None)
         logging.error("Error while fitting", exc_info=True)
-      finally:
-        self.audio_resynth_x = None
+        messagebox.showerror(type(e).__name__, str(e))
+      else:
+        self._set_analysis(model, x, sr, x_hat)
         self.update_plot()
 
+  def _set_analysis(self, model, x, sr, x_hat):
+    """Set the results of the last analysis
+
+    Args:
+      model: Fitted model
+      x: Analysed audio
+      sr: Sample rate of the analysed audio
+      x_hat: Resynthesis"""
+    self.sample_object = model
+    self._analysis_x = x
+    self._analysis_sr = sr
+    self.audio_resynth_x = x_hat
+    for ax in self.ax:
+      ax.clear()
+    self.plt.canvas.draw()
+
   def _get_audio(self, resynth: bool):
-    """Get audio array"""
+    """Get audio array and sample rate"""
     if not self.audio_loaded:
       messagebox.showerror("No audio",
                            "You have to load an audio file before proceeding")
       return
-    x = self.audio_x[self.audio_trim_start:self.audio_trim_stop]
     if not resynth:
-      return x
+      return (self.audio_x[self.audio_trim_start:self.audio_trim_stop],
+              self.audio_sr)
     if self.audio_resynth_x is None:
-      try:
-        self.audio_resynth_x = np.clip(
-            self.sample_object.predict(np.arange(x.size) / self.audio_sr,), -1,
-            +1)
-      except AttributeError:
-        messagebox.showerror(
-            "Not analyzed", "You have to analyse an audio file "
-            "before the resynthesis")
-        self.audio_resynth_x = None
-        return
-    return self.audio_resynth_x
+      messagebox.showerror(
+          "Not analyzed", "You have to analyse an audio file "
+          "before the resynthesis")
+      return
+    return self.audio_resynth_x, self._analysis_sr
 
   def play_cbk(self, original: bool = True):
     """Audio playback callback constructor"""
@@ -257,7 +271,7 @@ class AnalysisTab(utils.DataOnRootMixin, tk.Frame):
       """Audio playback callback"""
       x = self._get_audio(not original)
       if x is not None:
-        self._tmp_audio = audio.TempAudio(x, self.audio_sr)
+        self._tmp_audio = audio.TempAudio(*x)
         self._tmp_audio.play()
 
     return play_cbk_
@@ -273,6 +287,7 @@ class AnalysisTab(utils.DataOnRootMixin, tk.Frame):
     x = self._get_audio(True)
     if x is None:
       return
+    x, sr = x
     filename = filedialog.asksaveasfilename(
         title="Save WAV file",
         initialdir=self.filedialog_dir_save,
@@ -288,7 +303,7 @@ class AnalysisTab(utils.DataOnRootMixin, tk.Frame):
       logging.info("Saving WAV: %s", filename)
       self.filedialog_dir_save = os.path.dirname(filename)
       try:
-        wavfile.write(filename=filename, rate=self.audio_sr, data=x)
+        wavfile.write(filename=filename, rate=sr, data=x)
       except Exception as e:  # pylint: disable=W0703
         messagebox.showerror(type(e).__name__, str(e))
       else:
-- 
2.43.0


From 6d877cbd8848cc0fb1ecfc47b7790d2cdc7b3f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:12 +0000
Subject: [PATCH 25/44] fix: the resynthesis of one sample is an array

---
 sample/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/sample.py b/sample/sample.py
index b258aa4..7635e2b 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -385,4 +385,4 @@ def additive_synth(x,
   dec = col(x) @ (-2 / row(decays))
   np.exp(dec, out=dec)
   amp = col(amps)
-  return np.squeeze((dec * osc) @ amp)
+  return np.squeeze((dec * osc) @ amp, axis=-1 if np.ndim(x) > 0 else None)
-- 
2.43.0


From 1b06443bba5990269c8ab6469a6a0f9d60c549ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:12 +0000
Subject: [PATCH 26/44] fix: plot analyses of sounds shorter than a window

---
 sample/plots.py            |  2 +-
 sample/widgets/analysis.py | 27 ++++++++++++++++-----------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/sample/plots.py b/sample/plots.py
index d72d872..b82964e 100644
--- a/sample/plots.py
+++ b/sample/plots.py
@@ -46,7 +46,7 @@ def sine_tracking_2d(s: Union[sm.SinusoidalModel, SAMPLE], ax=None, **kwargs):
     _, ax = plt.subplots(1, 2, sharex=True)
   tmax = 0
   reverse = getattr(m.tracker, "reverse", False)
-  if reverse:
+  if reverse and len(m.tracks_) > 0:
     if m.intermediate.save:
       tmax = len(m.intermediate["stft"]) * m.h / m.fs
     else:
diff --git a/sample/widgets/analysis.py b/sample/widgets/analysis.py
index a5e5d1c..5531749 100644
--- a/sample/widgets/analysis.py
+++ b/sample/widgets/analysis.py
@@ -133,10 +133,12 @@ class AnalysisTab(utils.DataOnRootMixin, tk.Frame):
     for ax in self.ax:
       ax.clear()
     m = self.sample_object.sinusoidal
-    stft = np.array([mx for mx, _ in m.intermediate["stft"]]).T
-    if m.tracker.reverse:
-      stft = np.fliplr(stft)
-    tmax = len(m.intermediate["stft"]) * m.h / m.fs
+    try:
+      stft = m.intermediate["stft"]
+    except KeyError:  # the sound is shorter than a window
+      stft = ()
+    tmax = len(stft) * m.h / m.fs
+    stft = np.array([mx for mx, _ in stft]).T
 
     plots.sine_tracking_2d(self.sample_object, ax=self.ax)
 
@@ -146,13 +148,16 @@ class AnalysisTab(utils.DataOnRootMixin, tk.Frame):
       xlim = self.ax[0].get_xlim()
     ylim = self.ax[0].get_ylim()
 
-    self.ax[0].imshow(
-        stft,
-        cmap="Greys",
-        origin="lower",
-        aspect="auto",
-        extent=(*xlim, 0, m.fs / 2),
-    )
+    if stft.size > 0:
+      if m.tracker.reverse:
+        stft = np.fliplr(stft)
+      self.ax[0].imshow(
+          stft,
+          cmap="Greys",
+          origin="lower",
+          aspect="auto",
+          extent=(*xlim, 0, m.fs / 2),
+      )
     self.ax[0].set_ylim(ylim)
     self.ax[0].set_xlim(xlim)
     self.ax[0].grid(False)
-- 
2.43.0


From cb51ffc13e3df434724c7b9c22f1dc964266d774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:58 +0000
Subject: [PATCH 27/44] fix: optimised parameters are used also without a
 remapper

---
 sample/optimize.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sample/optimize.py b/sample/optimize.py
index fb5b9f0..efc393f 100644
--- a/sample/optimize.py
+++ b/sample/optimize.py
@@ -146,9 +146,8 @@ class SAMPLEOptimizer:
     if len(args) != len(self.dimensions):
       raise ValueError(f"Expected {len(self.dimensions)} "
                        f"positional arguments, got {len(args)}")
-    if self.remap is not None:
-      kwargs = self.remap(**dict(zip(self.dimensions, args)), **kwargs)
-    return kwargs
+    kwargs.update(zip(self.dimensions, args))
+    return kwargs if self.remap is None else self.remap(**kwargs)
 
   def loss(self, x: np.ndarray, fs: float) -> Callable[..., float]:
     """Define a loss function for the target audio based on
-- 
2.43.0


From 333e008ae85cc3e9ff928ff1c5def320f71b7a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:58 +0000
Subject: [PATCH 28/44] fix: remap parameters of any class of models

---
 sample/optimize.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sample/optimize.py b/sample/optimize.py
index efc393f..d59a231 100644
--- a/sample/optimize.py
+++ b/sample/optimize.py
@@ -52,18 +52,24 @@ def sample_kwargs_remapper(sinusoidal__log_n: Optional[int] = None,
 
   Returns:
     dict: Remapped keyword arguments"""
+  def sinusoidal():
+    # Other parameters could be of any class of models
+    return sample.SAMPLE(**{
+        k: v for k, v in kwargs.items() if k.startswith("sinusoidal")
+    }).sinusoidal
+
   # FFT size from log-size
   if sinusoidal__log_n is not None and \
     "sinusoidal__n" not in kwargs:
     kwargs["sinusoidal__n"] = 1 << sinusoidal__log_n
   # Window from name and size
   if "sinusoidal__w" not in kwargs:
-    wsize = int(sample.SAMPLE(**kwargs).sinusoidal.n * sinusoidal__wsize)
+    wsize = int(sinusoidal().n * sinusoidal__wsize)
     kwargs["sinusoidal__w"] = signal.get_window(window=sinusoidal__wtype,
                                                 Nx=wsize)
   # Hop-size from overlap and window size
   if "sinusoidal__tracker__h" not in kwargs:
-    wsize = np.size(sample.SAMPLE(**kwargs).sinusoidal.w)
+    wsize = np.size(sinusoidal().w)
     hopsize = int((1 - sinusoidal__overlap) * wsize)
     hopsize = max(min(hopsize, wsize), 1)
     kwargs["sinusoidal__tracker__h"] = hopsize
-- 
2.43.0


From d95930b8774dc11475699f9e15ed1f9e35927b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:24 +0000
Subject: [PATCH 29/44] fix: optimisation preserves the fixed STFT parameters
 of the model

---
 sample/optimize.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/sample/optimize.py b/sample/optimize.py
index d59a231..484c384 100644
--- a/sample/optimize.py
+++ b/sample/optimize.py
@@ -153,8 +153,34 @@ class SAMPLEOptimizer:
       raise ValueError(f"Expected {len(self.dimensions)} "
                        f"positional arguments, got {len(args)}")
     kwargs.update(zip(self.dimensions, args))
+    if self.remap is sample_kwargs_remapper:
+      kwargs = {**self._fixed_stft_kwargs(kwargs), **kwargs}
     return kwargs if self.remap is None else self.remap(**kwargs)
 
+  def _fixed_stft_kwargs(self, kwargs: Dict[str, Any]) -> Dict[str, Any]:
+    """STFT parameters of the :attr:`model` that do not depend on any other
+    given argument, so that :func:`sample_kwargs_remapper` preserves them
+
+    Args:
+      kwargs (dict): Arguments for :func:`sample_kwargs_remapper`
+
+    Returns:
+      dict: Additional arguments for :func:`sample_kwargs_remapper`"""
+    model = self.model.sinusoidal
+    keys = {
+        k.replace("sinusoidal_model__", "sinusoidal__", 1) for k in kwargs
+    }
+    fixed = {}
+    if keys.isdisjoint(("sinusoidal__log_n", "sinusoidal__n")):
+      fixed["sinusoidal__n"] = model.n
+      if keys.isdisjoint(
+          ("sinusoidal__wtype", "sinusoidal__wsize", "sinusoidal__w")):
+        fixed["sinusoidal__w"] = model.w
+        if keys.isdisjoint(
+            ("sinusoidal__overlap", "sinusoidal__tracker__h")):
+          fixed["sinusoidal__tracker__h"] = model.h
+    return fixed
+
   def loss(self, x: np.ndarray, fs: float) -> Callable[..., float]:
     """Define a loss function for the target audio based on
     computing :attr:`loss_fn` on the target and resynthesised audio
-- 
2.43.0


From 3bbaa5b8ad4aac057f6c42b8ee362e8f6ee4f389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:19 +0000
Subject: [PATCH 30/44] fix: the progress of a continued optimisation counts
 only its own calls

---
 sample/optimize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sample/optimize.py b/sample/optimize.py
index 484c384..bea0c4f 100644
--- a/sample/optimize.py
+++ b/sample/optimize.py
@@ -294,6 +294,9 @@ class TqdmCallback:
       res (OptimizeResult): Current result state"""
     if not self.started:
       self.start()
+    y0 = getattr(res, "specs", {}).get("args", {}).get("y0", None)
+    if y0 is not None and len(res.x_iters) <= np.size(y0):
+      return  # only known points so far, none has been evaluated
     self.i += 1
     self.tqdm.update()
     if self.i <= self.n_initial_points:
-- 
2.43.0


From 42471912ae0e13218fe900a3b7c7bfaa9a95a6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:16 +0000
Subject: [PATCH 31/44] fix: local maxima and onset selection with a window of
 one sample

---
 sample/utils/dsp.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/sample/utils/dsp.py b/sample/utils/dsp.py
index ab909e1..bad8dd2 100644
--- a/sample/utils/dsp.py
+++ b/sample/utils/dsp.py
@@ -560,13 +560,14 @@ def local_maxima(x: np.ndarray,
   key = x_flat if key is None else np.reshape(key, (-1,))[:x_flat.size]
   wins = overlapping_windows(key, wsize=2 * w + 1, hop=1)
   maxima = np.max(wins, axis=-1)
-  np.greater_equal(x_flat[w:-w],
+  stop = max(w, x_flat.size - w)
+  np.greater_equal(x_flat[w:stop],
                    maxima,
-                   out=maxima if logical_and else out[w:-w])
+                   out=maxima if logical_and else out[w:stop])
   if logical_and:
-    np.logical_and(maxima, out[w:-w], out=out[w:-w])
+    np.logical_and(maxima, out[w:stop], out=out[w:stop])
   out[:w] = False
-  out[-w:] = False
+  out[stop:] = False
   return out
 
 
@@ -593,9 +594,11 @@ def _onset_selection_m(x: np.ndarray,
   """Helper function for :func:`onset_selection` (asymmetric average filter)"""
   x_flat = np.reshape(x, (-1,))
   wins = overlapping_windows(x_flat, wsize=(m + 1) * w + 1, hop=1)
-  out[:m * w] = 0
-  out[-w:] = 0
-  np.mean(wins, axis=-1, out=out[m * w:-w])
+  start = m * w
+  stop = max(start, x_flat.size - w)
+  out[:start] = 0
+  out[stop:] = 0
+  np.mean(wins, axis=-1, out=out[start:stop])
   np.add(out, delta, out=out)
   return out
 
@@ -625,7 +628,7 @@ def onset_selection(x,
       international conference on digital audio effects.
       Vol. 120. No. 133-137. 2006."""
   x_n = normalize(np.reshape(x, (-1,)), mode="rms")
-  ons = np.empty(x_n.size, dtype=bool)
+  ons = np.ones(x_n.size, dtype=bool)
 
   tmp = _onset_selection_g(x_n, alpha=alpha)
   # pylint: disable=E1136 (false positive)
-- 
2.43.0


From 2420e2333dc2cc1fe59f1e402f8d1fd73f13ed30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:24 +0000
Subject: [PATCH 32/44] fix: bisection refuses boundaries of equal sign however
 small the values

---
 sample/utils/dsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/utils/dsp.py b/sample/utils/dsp.py
index bad8dd2..34efc6b 100644
--- a/sample/utils/dsp.py
+++ b/sample/utils/dsp.py
@@ -166,7 +166,7 @@ def dychotomic_zero_crossing(func: Callable[[float], float],
     float: Argument for which the function is close to zero"""
   f_lo = func(lo)
   f_hi = func(hi)
-  if f_lo * f_hi > 0:
+  if np.sign(f_lo) * np.sign(f_hi) > 0:
     raise ValueError("Function has the same sign at both boundaries: "
                      f"f({lo}) = {f_lo},  f({hi}) = {f_hi}")
   if f_lo > f_hi:
-- 
2.43.0


From 7bb4b2512e4a7f206af48f38af832824227d4753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:19 +0000
Subject: [PATCH 33/44] fix: strided filterbank of one-sample responses

---
 sample/psycho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index 75844c2..f69fc5b 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -829,7 +829,7 @@ class GammatoneFilterbank:
       else:
         # Zero-padding for full-convolution
         x_pad = np.zeros(x.size + 2 * (self._ir_size - 1), dtype=x.dtype)
-        x_pad[(self._ir_size - 1):-(self._ir_size - 1)] = x
+        x_pad[(self._ir_size - 1):(self._ir_size - 1 + x.size)] = x
         # Output delay (quantized to stride)
         offsets_s = self.offsets // stride
         # Input delay (quantization residual)
-- 
2.43.0


From 513f89e6fef2aa623dd21aac00b4cd37a1720f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:19 +0000
Subject: [PATCH 34/44] fix: strided filterbank keeps the end of delayed
 responses

---
 sample/psycho.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index f69fc5b..f38f332 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -839,7 +839,8 @@ class GammatoneFilterbank:
         # Starting index
         x_begins = self._ir_size - ir_sizes - offsets_x
         # Input lengths
-        x_sizes = np.minimum(x_pad.size - x_begins, x.size + 2 * (ir_sizes - 1))
+        x_sizes = np.minimum(x_pad.size - x_begins,
+                             x.size + 2 * (ir_sizes - 1) + offsets_x)
         # Output lengths
         n_wins = np.array([
             dsp_utils.n_windows(x_size, ir_size, hop=stride)
-- 
2.43.0


From f74be4a6cd8044b7c3c588934b74a3091f39c1be Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:49:05 +0000
Subject: [PATCH 35/44] fix: beat phase for time axes that do not start at zero

---
 sample/beatsdrop/__init__.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sample/beatsdrop/__init__.py b/sample/beatsdrop/__init__.py
index 24fcd7b..c981832 100644
--- a/sample/beatsdrop/__init__.py
+++ b/sample/beatsdrop/__init__.py
@@ -150,12 +150,15 @@ class Beat:
     f = np2pg.add.op(f, self._graph["w_oln"])
     self._graph["fm"] = f
 
-    # Initial phase
-    y0 = np2pg.multiply.op(self.compute(0, "a_hat"),
-                           np2pg.sin.op(self._graph["p_hat"]))
-    x0 = np2pg.multiply.op(self.compute(0, "a_oln"),
-                           np2pg.cos.op(self._graph["p_hat"]))
-    p0 = np2pg.add.op(self._graph["p_oln"], np2pg.arctan2.op(y0, x0))
+    # Initial phase, at the first time-step
+    phase = np2pg.multiply.op(self._graph["w_hat"], self._graph["t"])
+    phase = np2pg.add.op(phase, self._graph["p_hat"])
+    y0 = np2pg.multiply.op(self._graph["a_hat"], np2pg.sin.op(phase))
+    x0 = np2pg.multiply.op(self._graph["a_oln"], np2pg.cos.op(phase))
+    p0 = np2pg.multiply.op(self._graph["w_oln"], self._graph["t"])
+    p0 = np2pg.add.op(p0, self._graph["p_oln"])
+    p0 = np2pg.add.op(p0, np2pg.arctan2.op(y0, x0))
+    p0 = pg.op(utils.NamedObject(lambda p: p[..., :1], "first")).op(p0)
     # Instantenous Phase
     p = pg.op(integrate.cumulative_trapezoid).op(f, self._graph["t"], initial=0)
     p = np2pg.add.op(p, p0)
-- 
2.43.0


From 77dade480c3408506da548e6ae115a293cad59f5 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:53:35 +0000
Subject: [PATCH 36/44] fix: beat of one constant and one varying amplitude

---
 sample/utils/__init__.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sample/utils/__init__.py b/sample/utils/__init__.py
index e72d420..4046d24 100644
--- a/sample/utils/__init__.py
+++ b/sample/utils/__init__.py
@@ -255,7 +255,6 @@ class Numpy2Paragraph:
     self._d = {}
 
   @staticmethod
-  @numpy_out(dtype=float)
   def _semisum(x: np.ndarray,
                y: np.ndarray,
                out: Optional[np.ndarray] = None,
@@ -269,11 +268,10 @@ class Numpy2Paragraph:
 
     Returns:
       array: Half of the sum of the inputs"""
-    out = np.add(x, y, out=out, **kwargs)
-    return np.true_divide(out, 2, out=out, **kwargs)
+    sum_ = np.add(x, y, out=out, **kwargs)
+    return np.true_divide(sum_, 2, out=out, **kwargs)
 
   @staticmethod
-  @numpy_out(dtype=float)
   def _semidiff(x: np.ndarray,
                 y: np.ndarray,
                 out: Optional[np.ndarray] = None,
@@ -287,8 +285,8 @@ class Numpy2Paragraph:
 
     Returns:
       array: Half of the difference of the inputs"""
-    out = np.subtract(x, y, out=out, **kwargs)
-    return np.true_divide(out, 2, out=out, **kwargs)
+    diff_ = np.subtract(x, y, out=out, **kwargs)
+    return np.true_divide(diff_, 2, out=out, **kwargs)
 
   semisum = pg.op(NamedObject(_semisum.__get__(object), name="semisum"))  # pylint: disable=E1120
   semidiff = pg.op(NamedObject(_semidiff.__get__(object), name="semidiff"))  # pylint: disable=E1120
-- 
2.43.0


From 3e6f492d05ac3bac9400b1d37948d0401973e9b4 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:55:08 +0000
Subject: [PATCH 37/44] fix: fit forgets the contents of a storage it is handed

---
 sample/sms/sm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/sms/sm.py b/sample/sms/sm.py
index f5d3652..cddc3cf 100644
--- a/sample/sms/sm.py
+++ b/sample/sms/sm.py
@@ -313,8 +313,8 @@ class SinusoidalModel(base.TransformerMixin, base.BaseEstimator):
     # Avoid _fit_args appearing in signatures, since it's considered
     # an implementation detail
     fit_args = kwargs.pop("_fit_args", None)
-    self.intermediate.reset()
     self.set_params(**kwargs)
+    self.intermediate.reset()
     self.tracker.reset()
     self.w_ = self._normalized_window
     if getattr(self.tracker, "reverse", False):
-- 
2.43.0


From 22062f6f1e06ff580ea2e5ae8570ec6b38fa16b8 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:59:49 +0000
Subject: [PATCH 38/44] fix: beat regression of tracks that do not decay or
 keep one frequency

---
 sample/beatsdrop/regression.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sample/beatsdrop/regression.py b/sample/beatsdrop/regression.py
index d74f22e..3666f07 100644
--- a/sample/beatsdrop/regression.py
+++ b/sample/beatsdrop/regression.py
@@ -199,7 +199,11 @@ class BeatRegression(base.RegressorMixin, base.BaseEstimator):
     f0 = carrier_freq + am_freq
     f1 = carrier_freq - am_freq
     # Decays
-    d0 = d1 = -40 * np.log10(np.e) / model.k_
+    d0 = -40 * np.log10(np.e) / model.k_
+    if not 0 < d0 < 100:
+      # not decaying, or slower than the default boundaries
+      d0 = 99.0
+    d1 = d0
     # Phases
     # without loss of generality, consider p0 = 0
     p_hat = np.mod(
@@ -250,7 +254,7 @@ class BeatRegression(base.RegressorMixin, base.BaseEstimator):
     # Frequency bounds
     f_min = np.min(f)
     f_max = np.max(f)
-    df = min(f_max - f_min, 1)
+    df = min(f_max - f_min, 1) or 1
     f_max = max(*p[2:4], f_max) + df
     f_min = min(*p[2:4], f_min) - df
 
-- 
2.43.0


From af1f28417bcfb4554d89b84a086ac442e8b9d462 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 03:30:20 +0000
Subject: [PATCH 39/44] fix: gammatone filterbanks cannot be copied or pickled

Looking up any attribute before the filters are restored recursed
forever.
---
 sample/psycho.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index f38f332..394b523 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -744,10 +744,12 @@ class GammatoneFilterbank:
   def __getattr__(self, key: str):
     """If attribute is not found, try getting a tuple of attributes,
     one from each filter"""
-    try:
-      return tuple(getattr(f, key) for f in self)
-    except AttributeError:
-      pass
+    # Filters are missing while the object is being copied or unpickled
+    if key != "_filters":
+      try:
+        return tuple(getattr(f, key) for f in self)
+      except AttributeError:
+        pass
     return super().__getattr__(key)
 
   class PrecomputedIRBank:
-- 
2.43.0


From 9312ff8b09398e805592fbcd0f4bf205189fe320 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 03:31:15 +0000
Subject: [PATCH 40/44] fix: decay time of first-order gammatone filters

The envelope of a filter of order one has its peak at the onset, so the
initial search range was empty and the search always failed.
---
 sample/psycho.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index 394b523..d03f17d 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -532,7 +532,8 @@ class GammatoneFilter:
     p = dsp_utils.db2a(floor) * self.envelope(hi)
     e = None
     if initial_range is None:
-      initial_range = 2 * (hi + self.t_c)
+      # The delay of first-order filters is zero: use their decay time
+      initial_range = 2 * self.raw_group_delay or 1 / self.bandwidth
 
     def _foo(t):
       return self.envelope(t) - p
-- 
2.43.0


From f73844a0ee0c3d4c281f11b74fce7bfef152729f Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 03:46:39 +0000
Subject: [PATCH 41/44] fix: 3D plots of reversed analyses run backwards in
 time

The time axis was mirrored for 2D plots only.
---
 sample/plots.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/sample/plots.py b/sample/plots.py
index b82964e..1402253 100644
--- a/sample/plots.py
+++ b/sample/plots.py
@@ -29,6 +29,21 @@ def _is_beat(m: SAMPLE, track_i: int):
       "decision"][track_i]
 
 
+def _time_axes(m: sm.SinusoidalModel):
+  """Helper function to get the time axis of each track"""
+  tmax = 0
+  reverse = getattr(m.tracker, "reverse", False)
+  if reverse and len(m.tracks_) > 0:
+    if m.intermediate.save:
+      tmax = len(m.intermediate["stft"]) * m.h / m.fs
+    else:
+      tmax = max((track["start_frame"] + track["freq"].size) * m.h / m.fs
+                 for track in m.tracks_)
+  for track in m.tracks_:
+    t_x = (track["start_frame"] + np.arange(track["freq"].size)) * m.h / m.fs
+    yield tmax - t_x if reverse else t_x
+
+
 def sine_tracking_2d(s: Union[sm.SinusoidalModel, SAMPLE], ax=None, **kwargs):
   """Plot sinusoidal tracks detected by the model on two axes,
   one for frequency and one for magnitude
@@ -44,18 +59,7 @@ def sine_tracking_2d(s: Union[sm.SinusoidalModel, SAMPLE], ax=None, **kwargs):
   m = s.sinusoidal if isinstance(s, SAMPLE) else s
   if ax is None:
     _, ax = plt.subplots(1, 2, sharex=True)
-  tmax = 0
-  reverse = getattr(m.tracker, "reverse", False)
-  if reverse and len(m.tracks_) > 0:
-    if m.intermediate.save:
-      tmax = len(m.intermediate["stft"]) * m.h / m.fs
-    else:
-      tmax = max((track["start_frame"] + track["freq"].size) * m.h / m.fs
-                 for track in m.tracks_)
-  for i, track in enumerate(m.tracks_):
-    t_x = (track["start_frame"] + np.arange(track["freq"].size)) * m.h / m.fs
-    if reverse:
-      t_x = tmax - t_x
+  for i, (track, t_x) in enumerate(zip(m.tracks_, _time_axes(m))):
     b = _is_beat(s, i)
     ax[0].plot(t_x, track["freq"], "--" if b else "-", **kwargs)
     ax[1].plot(t_x, track["mag"], "--" if b else "-", **kwargs)
@@ -86,8 +90,7 @@ def sine_tracking_3d(s: Union[sm.SinusoidalModel, SAMPLE], ax=None):
   m = s.sinusoidal if isinstance(s, SAMPLE) else s
   if ax is None:
     ax = plt.axes(projection="3d")
-  for i, track in enumerate(m.tracks_):
-    t_x = (track["start_frame"] + np.arange(track["freq"].size)) * m.h / m.fs
+  for i, (track, t_x) in enumerate(zip(m.tracks_, _time_axes(m))):
     ax.plot(t_x, track["freq"], track["mag"], "--" if _is_beat(s, i) else "-")
 
   ax.set_xlabel("time (s)")
-- 
2.43.0


From 8d2b72fc39dea3d49aa63398758c1e9fbb37ba71 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 03:47:19 +0000
Subject: [PATCH 42/44] fix: comparison plots of one beat model or on a list of
 axes

---
 sample/plots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/plots.py b/sample/plots.py
index 1402253..973c3f6 100644
--- a/sample/plots.py
+++ b/sample/plots.py
@@ -292,11 +292,12 @@ def beatsdrop_comparison(
     shape = 3, len(beatsdrops)
     if transpose:
       shape = reversed(shape)
-    axs = fig.subplots(*shape, sharex=True)
+    axs = fig.subplots(*shape, sharex=True, squeeze=False)
     if transpose:
       axs = axs.T
   else:
     transpose = False
+    axs = np.asarray(axs)
     if fig is None:
       fig = axs[0][0].get_figure()
 
-- 
2.43.0


From 595625dca6c2c4f84a4d70064c635a759b12d710 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 04:08:32 +0000
Subject: [PATCH 43/44] fix: text between two sphinx roles is dropped from
 displayed parameters

---
 sample/ipython.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/ipython.py b/sample/ipython.py
index 7e309ad..d0e10c7 100644
--- a/sample/ipython.py
+++ b/sample/ipython.py
@@ -41,7 +41,7 @@ class CollapsibleModelParams(ipd.HTML):
     model: Model of which the parameters should be displayed"""
 
   # Regex for sphinx commands
-  _SPHINXCLASS_REGEX = re.compile(r"\:\w+\:`.+`")
+  _SPHINXCLASS_REGEX = re.compile(r"\:\w+\:`[^`]+`")
   _SINGLE_WS_REGEX = re.compile(r"\s")
 
   @staticmethod
-- 
2.43.0


From a2597831c8543f0f63e2e57a86266d4e7f93b3b0 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 04:08:32 +0000
Subject: [PATCH 44/44] fix: displaying a second model breaks the panels of the
 first

---
 sample/collapsible_params.html | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sample/collapsible_params.html b/sample/collapsible_params.html
index e102903..4660a87 100644
--- a/sample/collapsible_params.html
+++ b/sample/collapsible_params.html
@@ -44,6 +44,11 @@
       var i;
       
       for (i = 0; i < coll.length; i++) {{
+        // Panels of previous displays already have a listener
+        if (coll[i].hasToggle) {{
+          continue;
+        }}
+        coll[i].hasToggle = true;
         coll[i].addEventListener("click", function() {{
           this.classList.toggle("active");
           var content = this.nextElementSibling;
-- 
2.43.0

