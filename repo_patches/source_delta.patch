From 4ffd97d8fbc47ea46afcb34bba23cf9213d723a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 01/42] fix: save checkpoints atomically

Checkpoint.to_file truncated the existing file before writing to it, so a
crash or a full disk while saving destroyed the previous checkpoint.
---
 lambeq/training/checkpoint.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lambeq/training/checkpoint.py b/lambeq/training/checkpoint.py
index 7eb8036..9156bca 100644
--- a/lambeq/training/checkpoint.py
+++ b/lambeq/training/checkpoint.py
@@ -125,11 +125,21 @@ class Checkpoint(Mapping):
             Path to the checkpoint file.
 
         """
+        # Write to a temporary file first, so that an interrupted or failed
+        # write never destroys a checkpoint previously saved at `path`.
+        tmp_path = f'{os.fspath(path)}.tmp'
         try:
-            with open(path, 'wb+') as ckp:
+            with open(tmp_path, 'wb+') as ckp:
                 pickle.dump(self.entries, ckp)
+                ckp.flush()
+                os.fsync(ckp.fileno())
+            os.replace(tmp_path, path)
         except FileNotFoundError as e:
             raise FileNotFoundError(
                 'The directory does not exist. Check path `{path}`'
             ) from e
+        except BaseException:
+            if os.path.isfile(tmp_path):
+                os.remove(tmp_path)
+            raise
         self.entries = {}
-- 
2.43.0


From 10c28ba3f7340f2420e79075fb6a5dfd315fed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 02/42] fix: keep pending train metrics when resuming from a
 checkpoint

Metric values collected since the last evaluation were not part of the
checkpoint, so with an evaluation interval that spans an epoch boundary a
resumed run reported different train metrics.
---
 lambeq/training/trainer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lambeq/training/trainer.py b/lambeq/training/trainer.py
index 2e426dc..2af89f5 100644
--- a/lambeq/training/trainer.py
+++ b/lambeq/training/trainer.py
@@ -275,6 +275,9 @@ class Trainer(ABC):
         self.val_costs = checkpoint['val_costs']
         self.val_durations = checkpoint['val_durations']
         self.val_eval_results = checkpoint['val_eval_results']
+        running = checkpoint.get('train_eval_running', {})
+        for name in self._train_eval_running:
+            self._train_eval_running[name] = running.get(name, [])
         self.start_epoch = checkpoint['epoch'] + 1
         self.start_step = checkpoint['step']
         if self.seed is not None:
@@ -302,6 +305,7 @@ class Trainer(ABC):
         """
         checkpoint = self.model._make_checkpoint()
         checkpoint.add_many(save_dict)
+        checkpoint.add_many({'train_eval_running': self._train_eval_running})
         self._add_extra_checkpoint_info(checkpoint)
         checkpoint.to_file(os.path.join(log_dir, prefix + 'model.lt'))
 
-- 
2.43.0


From 94ddec2b0f9bf0a98803e5ef52c508cd5e03177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 03/42] fix: do not replace the best model by a worse one after
 resuming

The best criterion value was reset on resume, so the first validation of
the resumed run always overwrote best_model.lt.
---
 lambeq/training/trainer.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lambeq/training/trainer.py b/lambeq/training/trainer.py
index 2af89f5..0e80e51 100644
--- a/lambeq/training/trainer.py
+++ b/lambeq/training/trainer.py
@@ -572,6 +572,17 @@ class Trainer(ABC):
         with backend(self.backend):
             early_stopping = False
             best_val_criterion = float('inf')
+            if self.from_checkpoint:
+                # take the restored validation history into account
+                past_vals = [factor * val for val in (
+                    self.val_costs if early_stopping_criterion is None
+                    else self.val_eval_results[early_stopping_criterion])]
+                if past_vals:
+                    best_val_criterion = min(past_vals)
+                    best_step = evaluation_step * (
+                        past_vals.index(best_val_criterion) + 1)
+                    best_epoch = ceil(
+                        best_step / train_dataset.batches_per_epoch)
             for epoch in trange(self.start_epoch,
                                 self.epochs + 1,
                                 desc='Epoch',
-- 
2.43.0


From 4f48d1d0d26dd8687dd52de687cbee7655fa2ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 04/42] fix: let training continue once Nelder-Mead has
 converged

A converged optimizer makes no model call in its backward pass, so that
training_step raised an IndexError looking for the last prediction.
---
 lambeq/training/quantum_trainer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/training/quantum_trainer.py b/lambeq/training/quantum_trainer.py
index 0a02309..b6a7593 100644
--- a/lambeq/training/quantum_trainer.py
+++ b/lambeq/training/quantum_trainer.py
@@ -161,6 +161,9 @@ class QuantumTrainer(Trainer):
         """
         self.model._clear_predictions()
         loss = self.optimizer.backward(batch)
+        if not self.model._train_predictions:
+            # a converged optimizer does not evaluate the model any more
+            self.model(batch[0])
         y_hat = self.model._train_predictions[-1]
         self.train_costs.append(loss)
         self.optimizer.step()
-- 
2.43.0


From 434420336fb0884843c3303eca795a810e8ae972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 05/42] fix: reset gradients that are not finite

Multiplying an infinite or NaN gradient by zero yields NaN, so one such
gradient poisoned every later step (and a run resumed from a checkpoint
taken in between gave different results).
---
 lambeq/training/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/training/optimizer.py b/lambeq/training/optimizer.py
index 2e0c408..91af737 100644
--- a/lambeq/training/optimizer.py
+++ b/lambeq/training/optimizer.py
@@ -93,7 +93,7 @@ class Optimizer(ABC):
 
     def zero_grad(self) -> None:
         """Reset the gradients to zero."""
-        self.gradient *= 0
+        self.gradient = np.zeros(len(self.model.weights))
 
     def _warn_if_nan_or_inf(self, loss: float) -> None:
         """Print a warning if loss value is NaN or Inf.
-- 
2.43.0


From f9a387de8f13585113485f5fed5dcd4f18cd3a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 06/42] fix: do not divide by zero in SPSA at the bounds

When both perturbed values of a parameter are projected onto the same
bound, the gradient estimate was 0/0 or x/0 and the weights became NaN.
---
 lambeq/training/spsa_optimizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lambeq/training/spsa_optimizer.py b/lambeq/training/spsa_optimizer.py
index 63cf524..ad7b4d6 100644
--- a/lambeq/training/spsa_optimizer.py
+++ b/lambeq/training/spsa_optimizer.py
@@ -170,7 +170,11 @@ class SPSAOptimizer(Optimizer):
         if self.bounds is None:
             grad = (loss0 - loss1) / (2 * self.ck * delta)
         else:
-            grad = (loss0 - loss1) / (xplus - xminus)
+            # a parameter whose trial points are projected onto the same
+            # bound is not perturbed, so it does not have a gradient
+            diff = np.asarray(xplus - xminus, dtype=float)
+            grad = np.divide(loss0 - loss1, diff,
+                             out=np.zeros_like(diff), where=diff != 0)
 
         self.gradient += grad * mask
 
-- 
2.43.0


From b894b564792d86a22e5185662b6c553155f3fb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 07/42] fix: leave training mode when fitting fails or is
 interrupted

---
 lambeq/training/quantum_trainer.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/lambeq/training/quantum_trainer.py b/lambeq/training/quantum_trainer.py
index b6a7593..1af3067 100644
--- a/lambeq/training/quantum_trainer.py
+++ b/lambeq/training/quantum_trainer.py
@@ -204,14 +204,15 @@ class QuantumTrainer(Trainer):
 
         self.model._training = True
 
-        super().fit(train_dataset,
-                    val_dataset,
-                    log_interval,
-                    eval_interval,
-                    eval_mode,
-                    early_stopping_criterion,
-                    early_stopping_interval,
-                    minimize_criterion,
-                    full_timing_report,)
-
-        self.model._training = False
+        try:
+            super().fit(train_dataset,
+                        val_dataset,
+                        log_interval,
+                        eval_interval,
+                        eval_mode,
+                        early_stopping_criterion,
+                        early_stopping_interval,
+                        minimize_criterion,
+                        full_timing_report,)
+        finally:
+            self.model._training = False
-- 
2.43.0


From f0916bfcf735913426fea9052ff092c7b98af020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 08/42] fix: restore the weights when evaluating a trial point
 fails

SPSA, Rotosolve and Nelder-Mead left the model with the parameters of the
point they were probing, and Nelder-Mead with a partially updated simplex.
---
 lambeq/training/nelder_mead_optimizer.py | 12 ++++++++++
 lambeq/training/rotosolve_optimizer.py   | 19 ++++++++++------
 lambeq/training/spsa_optimizer.py        | 29 ++++++++++++------------
 3 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/lambeq/training/nelder_mead_optimizer.py b/lambeq/training/nelder_mead_optimizer.py
index 6b2377c..3cbc0ee 100644
--- a/lambeq/training/nelder_mead_optimizer.py
+++ b/lambeq/training/nelder_mead_optimizer.py
@@ -279,6 +279,18 @@ class NelderMeadOptimizer(Optimizer):
             The calculated loss.
 
         """
+        weights = self.model.weights
+        simplex = self.sim.copy(), self.fsim.copy(), self.first_iter
+        try:
+            return self._backward(batch)
+        except BaseException:
+            # do not leave a trial point or a partial simplex behind
+            self.model.weights = weights
+            self.sim, self.fsim, self.first_iter = simplex
+            raise
+
+    def _backward(self, batch: tuple[Iterable[Any], np.ndarray]) -> float:
+        """Update the simplex, leaving a trial point in the model."""
         diagrams, targets = batch
         diags_gen = flatten(diagrams)
 
diff --git a/lambeq/training/rotosolve_optimizer.py b/lambeq/training/rotosolve_optimizer.py
index af15e4c..f1ec362 100644
--- a/lambeq/training/rotosolve_optimizer.py
+++ b/lambeq/training/rotosolve_optimizer.py
@@ -106,13 +106,18 @@ class RotosolveOptimizer(Optimizer):
             phi = self.model.weights[i]
             m_phi = self.loss_fn(self.model(diagrams), targets)
 
-            # M_phi + pi/2
-            self.model.weights[i] = phi + 1/4
-            m_phi_plus = self.loss_fn(self.model(diagrams), targets)
-
-            # M_phi - pi/2
-            self.model.weights[i] = phi - 1/4
-            m_phi_minus = self.loss_fn(self.model(diagrams), targets)
+            try:
+                # M_phi + pi/2
+                self.model.weights[i] = phi + 1/4
+                m_phi_plus = self.loss_fn(self.model(diagrams), targets)
+
+                # M_phi - pi/2
+                self.model.weights[i] = phi - 1/4
+                m_phi_minus = self.loss_fn(self.model(diagrams), targets)
+            except BaseException:
+                # do not leave a shifted parameter behind
+                self.model.weights[i] = phi
+                raise
 
             # Update weight
             angle = np.arctan2(2*m_phi - m_phi_plus - m_phi_minus,
diff --git a/lambeq/training/spsa_optimizer.py b/lambeq/training/spsa_optimizer.py
index ad7b4d6..176073b 100644
--- a/lambeq/training/spsa_optimizer.py
+++ b/lambeq/training/spsa_optimizer.py
@@ -155,17 +155,21 @@ class SPSAOptimizer(Optimizer):
         delta = np.random.choice([-1, 1], size=len(x))
 
         # calculate gradient
-        xplus = self.project(x + self.ck * delta)
-        self.model.weights = xplus
-        y0 = self.model(diagrams)
-        loss0 = self.loss_fn(y0, targets)
-        self._warn_if_nan_or_inf(loss0)
-
-        xminus = self.project(x - self.ck * delta)
-        self.model.weights = xminus
-        y1 = self.model(diagrams)
-        loss1 = self.loss_fn(y1, targets)
-        self._warn_if_nan_or_inf(loss1)
+        try:
+            xplus = self.project(x + self.ck * delta)
+            self.model.weights = xplus
+            y0 = self.model(diagrams)
+            loss0 = self.loss_fn(y0, targets)
+            self._warn_if_nan_or_inf(loss0)
+
+            xminus = self.project(x - self.ck * delta)
+            self.model.weights = xminus
+            y1 = self.model(diagrams)
+            loss1 = self.loss_fn(y1, targets)
+            self._warn_if_nan_or_inf(loss1)
+        finally:
+            # restore parameter value
+            self.model.weights = x
 
         if self.bounds is None:
             grad = (loss0 - loss1) / (2 * self.ck * delta)
@@ -178,9 +182,6 @@ class SPSAOptimizer(Optimizer):
 
         self.gradient += grad * mask
 
-        # restore parameter value
-        self.model.weights = x
-
         loss = (loss0 + loss1) / 2
         return loss
 
-- 
2.43.0


From fe3d94aed5a20876f9f5eb59a8b9badcf822c663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 09/42] fix: measure training durations with a monotonic clock

Recorded durations were wrong, or negative, when the wall clock was
adjusted during training.
---
 lambeq/training/trainer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lambeq/training/trainer.py b/lambeq/training/trainer.py
index 0e80e51..523e39b 100644
--- a/lambeq/training/trainer.py
+++ b/lambeq/training/trainer.py
@@ -389,7 +389,7 @@ class Trainer(ABC):
                        step_durations: list[Any],
                        evaluate: bool = True) -> Any:
         """Perform a forward step and evaluate the metrics."""
-        step_start = time.time()
+        step_start = time.perf_counter()
         batch_size = len(batch[0])
         y_hat, loss = step_func(batch)
         losses.append((batch_size, loss))
@@ -398,7 +398,7 @@ class Trainer(ABC):
             for metr, func in self.evaluate_functions.items():
                 res = func(y_hat, batch[1])
                 eval_results[metr].append((batch_size, res))
-        step_end = time.time()
+        step_end = time.perf_counter()
         step_duration = step_end - step_start
         step_durations.append(step_duration)
 
@@ -590,7 +590,7 @@ class Trainer(ABC):
                                 leave=False,
                                 position=1):
 
-                epoch_start = time.time()
+                epoch_start = time.perf_counter()
                 train_losses: list[tuple[int, Any]] = []
                 for batch in tqdm(train_dataset,
                                   desc='Batch',
@@ -776,7 +776,7 @@ class Trainer(ABC):
                     if early_stopping:
                         break   # inner epoch loop
 
-                epoch_end = time.time()
+                epoch_end = time.perf_counter()
                 epoch_duration = epoch_end - epoch_start
                 self.train_epoch_durations.append(epoch_duration)
 
-- 
2.43.0


From 3a1704ab802c85f1923d5c986b418f86eb72e901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 10/42] fix: do not leave a model half-loaded when loading a
 checkpoint fails

---
 lambeq/training/pennylane_model.py | 26 ++++++++++++++------------
 lambeq/training/pytorch_model.py   | 25 ++++++++++++++++++++++---
 lambeq/training/quantum_model.py   |  8 ++++++--
 3 files changed, 42 insertions(+), 17 deletions(-)

diff --git a/lambeq/training/pennylane_model.py b/lambeq/training/pennylane_model.py
index 9c572b6..7791203 100644
--- a/lambeq/training/pennylane_model.py
+++ b/lambeq/training/pennylane_model.py
@@ -31,6 +31,7 @@ from lambeq.backend.symbol import Symbol
 from lambeq.backend.tensor import Diagram
 from lambeq.training.checkpoint import Checkpoint
 from lambeq.training.model import Model
+from lambeq.training.pytorch_model import restore_on_error
 
 if TYPE_CHECKING:
     from lambeq.backend.pennylane import PennyLaneCircuit
@@ -86,18 +87,19 @@ class PennyLaneModel(Model, torch.nn.Module):
             symbols and additional information.
 
         """
-        self.symbols = checkpoint['model_symbols']
-        self.weights = checkpoint['model_weights']
-        self._probabilities = checkpoint['model_probabilities']
-        self._normalize = checkpoint['model_normalize']
-        self._diff_method = checkpoint['model_diff_method']
-        self._backend_config = checkpoint['model_backend_config']
-        self.circuit_map = checkpoint['model_circuits']
-        self.load_state_dict(checkpoint['model_state_dict'])
-        self.symbol_weight_map = dict(zip(self.symbols, self.weights))
-
-        for p_circ in self.circuit_map.values():
-            p_circ.initialise_device_and_circuit()
+        with restore_on_error(self):
+            self.symbols = checkpoint['model_symbols']
+            self.weights = checkpoint['model_weights']
+            self._probabilities = checkpoint['model_probabilities']
+            self._normalize = checkpoint['model_normalize']
+            self._diff_method = checkpoint['model_diff_method']
+            self._backend_config = checkpoint['model_backend_config']
+            self.circuit_map = checkpoint['model_circuits']
+            self.load_state_dict(checkpoint['model_state_dict'])
+            self.symbol_weight_map = dict(zip(self.symbols, self.weights))
+
+            for p_circ in self.circuit_map.values():
+                p_circ.initialise_device_and_circuit()
 
     def _make_checkpoint(self) -> Checkpoint:
         """Create checkpoint that contains the model weights and symbols.
diff --git a/lambeq/training/pytorch_model.py b/lambeq/training/pytorch_model.py
index f4cc86d..21feb70 100644
--- a/lambeq/training/pytorch_model.py
+++ b/lambeq/training/pytorch_model.py
@@ -20,6 +20,9 @@ Module implementing a basic lambeq model based on a Pytorch backend.
 """
 from __future__ import annotations
 
+from collections.abc import Iterator
+from contextlib import contextmanager
+import copy
 from math import sqrt
 from typing import Sequence
 
@@ -38,6 +41,21 @@ from lambeq.training.tn_path_optimizer import (
 )
 
 
+@contextmanager
+def restore_on_error(module: torch.nn.Module) -> Iterator[None]:
+    """Undo any changes to a module if the block raises an exception."""
+    attributes = {key: copy.copy(val) if isinstance(val, dict) else val
+                  for key, val in vars(module).items()}
+    state = {key: val.clone() for key, val in module.state_dict().items()}
+    try:
+        yield
+    except BaseException:
+        vars(module).clear()
+        vars(module).update(attributes)
+        module.load_state_dict(state)
+        raise
+
+
 class PytorchModel(Model, torch.nn.Module):
     """A lambeq model for the classical pipeline using PyTorch."""
 
@@ -115,9 +133,10 @@ class PytorchModel(Model, torch.nn.Module):
 
         """
 
-        self.symbols = checkpoint['model_symbols']
-        self.weights = checkpoint['model_weights']
-        self.load_state_dict(checkpoint['model_state_dict'])
+        with restore_on_error(self):
+            self.symbols = checkpoint['model_symbols']
+            self.weights = checkpoint['model_weights']
+            self.load_state_dict(checkpoint['model_state_dict'])
         self.tn_path_optimizer.restore_from_checkpoint(checkpoint)
 
     def _make_checkpoint(self) -> Checkpoint:
diff --git a/lambeq/training/quantum_model.py b/lambeq/training/quantum_model.py
index be21a0b..5a4b741 100644
--- a/lambeq/training/quantum_model.py
+++ b/lambeq/training/quantum_model.py
@@ -111,8 +111,12 @@ class QuantumModel(Model):
 
         """
 
-        self.symbols = checkpoint['model_symbols']
-        self.weights = checkpoint['model_weights']
+        # look up everything first, so that an incomplete checkpoint does
+        # not leave the model half-loaded
+        symbols = checkpoint['model_symbols']
+        weights = checkpoint['model_weights']
+        self.symbols = symbols
+        self.weights = weights
 
     def _make_checkpoint(self) -> Checkpoint:
         """Create checkpoint that contains the model weights and symbols.
-- 
2.43.0


From 2455b38942ba147d718c2180384371ddcaff0f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 11/42] fix: drop compiled functions when loading a checkpoint
 in NumpyModel

With use_jit=True a function compiled before loading kept using the old
order of the symbols, so the loaded model gave wrong predictions.
---
 lambeq/training/numpy_model.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lambeq/training/numpy_model.py b/lambeq/training/numpy_model.py
index f45efb0..1f4f8e0 100644
--- a/lambeq/training/numpy_model.py
+++ b/lambeq/training/numpy_model.py
@@ -35,6 +35,7 @@ from numpy.typing import ArrayLike
 from lambeq.backend import numerical_backend
 from lambeq.backend.quantum import Diagram as Circuit
 from lambeq.backend.tensor import Diagram
+from lambeq.training.checkpoint import Checkpoint
 from lambeq.training.quantum_model import QuantumModel
 
 if TYPE_CHECKING:
@@ -60,6 +61,21 @@ class NumpyModel(QuantumModel):
         self.use_jit = use_jit
         self.lambdas: dict[Diagram, Callable[..., Any]] = {}
 
+    def _load_checkpoint(self, checkpoint: Checkpoint) -> None:
+        """Load the model weights and symbols from a lambeq
+        :py:class:`.Checkpoint`.
+
+        Parameters
+        ----------
+        checkpoint : :py:class:`.Checkpoint`
+            Checkpoint containing the model weights, symbols and
+            additional information.
+
+        """
+        super()._load_checkpoint(checkpoint)
+        # compiled functions depend on the order of the previous symbols
+        self.lambdas = {}
+
     def _get_lambda(self, diagram: Diagram) -> Callable[[Any], Any]:
         """Get lambda function that evaluates the provided diagram.
 
-- 
2.43.0


From 0141ebcacb1acf12b3a71d00c9b53de23a387fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:47 +0000
Subject: [PATCH 12/42] fix: use the installed model when downloading an update
 fails

Connection failures while fetching the tarball, stalled servers, error
pages served instead of the version, and truncated archives no longer
stop a parser that has an installed model, nor label it wrongly.
---
 .../text2diagram/model_based_reader/base.py   |  4 +++-
 .../model_based_reader/model_downloader.py    | 24 +++++++++++++------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/lambeq/text2diagram/model_based_reader/base.py b/lambeq/text2diagram/model_based_reader/base.py
index 189175f..00ed091 100644
--- a/lambeq/text2diagram/model_based_reader/base.py
+++ b/lambeq/text2diagram/model_based_reader/base.py
@@ -27,6 +27,7 @@ from abc import abstractmethod
 from pathlib import Path
 from typing import Any
 
+import requests
 import torch
 
 from lambeq.core.globals import VerbosityLevel
@@ -113,7 +114,8 @@ class ModelBasedReader(Reader):
                     or downloader.model_is_stale()):
                 try:
                     downloader.download_model(self.verbose)
-                except ModelDownloaderError as e:
+                except (ModelDownloaderError,
+                        requests.RequestException) as e:
                     local_model_version = downloader.get_local_model_version()
 
                     if (self.model_dir.is_dir()
diff --git a/lambeq/text2diagram/model_based_reader/model_downloader.py b/lambeq/text2diagram/model_based_reader/model_downloader.py
index 4496379..0125c80 100644
--- a/lambeq/text2diagram/model_based_reader/model_downloader.py
+++ b/lambeq/text2diagram/model_based_reader/model_downloader.py
@@ -23,6 +23,7 @@ import tarfile
 import tempfile
 from typing import IO
 import warnings
+import zlib
 
 import requests
 from tqdm import TqdmWarning
@@ -38,6 +39,8 @@ CHECKSUM_FNAME = 'model_checksum.sha256'
 # The server expects a user-agent header in each request, even if the
 # field is empty.
 HEADERS = {'user-agent': ''}
+# Time in seconds to wait for a connection and for data on it.
+TIMEOUT = (30, 60)
 
 
 class ModelDownloaderError(Exception):
@@ -149,7 +152,8 @@ class ModelDownloader:
         model_file = tempfile.NamedTemporaryFile()
 
         if verbose == VerbosityLevel.PROGRESS.value:
-            response = requests.get(download_url, headers=HEADERS, stream=True)
+            response = requests.get(download_url, headers=HEADERS, stream=True,
+                                    timeout=TIMEOUT)
 
             if response.status_code != 200:
                 raise ModelDownloaderError(
@@ -171,7 +175,8 @@ class ModelDownloader:
                 model_file.write(data)
 
         else:
-            response = requests.get(download_url, headers=HEADERS)
+            response = requests.get(download_url, headers=HEADERS,
+                                    timeout=TIMEOUT)
 
             if response.status_code != 200:
                 raise ModelDownloaderError(
@@ -200,10 +205,10 @@ class ModelDownloader:
             try:
                 tar = tarfile.open(fileobj=model_file)
                 tar.extractall(extraction_target)
-            except tarfile.TarError as e:
+            except (tarfile.TarError, EOFError, zlib.error) as e:
                 model_file.close()
                 raise ModelDownloaderError(
-                    'Failed to extract compressed model {self.model}'
+                    f'Failed to extract compressed model {self.model}'
                 ) from e
 
             model_file.close()
@@ -222,8 +227,12 @@ class ModelDownloader:
         ver_url = self.model_url + '/' + VERSION_FNAME
 
         try:
-            remote_version: str = requests.get(ver_url,
-                                               headers=HEADERS).text.strip()
+            response = requests.get(ver_url, headers=HEADERS, timeout=TIMEOUT)
+            if response.status_code != 200:
+                raise ModelDownloaderError(
+                    'Received response status code: '
+                    f'{response.status_code}')
+            remote_version: str = response.text.strip()
         except Exception as e:
             raise ModelDownloaderError(
                 'Failed to retrieve remote version number from '
@@ -239,7 +248,8 @@ class ModelDownloader:
 
         try:
             checksum_response: str = requests.get(checksum_url,
-                                                  headers=HEADERS).text
+                                                  headers=HEADERS,
+                                                  timeout=TIMEOUT).text
         except Exception as e:
             raise ModelDownloaderError(
                 'Failed to retrieve remote checksum from '
-- 
2.43.0


From ceda7f8ffdb209d42135ed898517098b75ec84d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 13/42] fix: install downloaded models atomically

An interrupted or failed update used to leave a mixture of two releases
in the model directory, and a completed one kept files of the previous
release.
---
 .../model_based_reader/model_downloader.py    | 28 +++++++++++++------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/lambeq/text2diagram/model_based_reader/model_downloader.py b/lambeq/text2diagram/model_based_reader/model_downloader.py
index 0125c80..c0ae323 100644
--- a/lambeq/text2diagram/model_based_reader/model_downloader.py
+++ b/lambeq/text2diagram/model_based_reader/model_downloader.py
@@ -17,7 +17,6 @@ from __future__ import annotations
 import hashlib
 import os
 from pathlib import Path
-from shutil import copytree
 import sys
 import tarfile
 import tempfile
@@ -199,8 +198,13 @@ class ModelDownloader:
         if verbose != VerbosityLevel.SUPPRESS.value:
             print('Extracting model...')
 
-        with tempfile.TemporaryDirectory() as extraction_target:
-            # Extract model to temporary directory first
+        # Prepare the new model next to `model_dir` first, so that it can
+        # be moved into place as a whole
+        target = self.model_dir.resolve()
+        with tempfile.TemporaryDirectory(
+                dir=target.parent, ignore_cleanup_errors=True) as staging_dir:
+            extraction_target = Path(staging_dir) / 'new'
+            extraction_target.mkdir()
 
             try:
                 tar = tarfile.open(fileobj=model_file)
@@ -213,13 +217,19 @@ class ModelDownloader:
 
             model_file.close()
 
-            # Copy extracted model to model_dir
-            copytree(extraction_target,
-                     str(self.model_dir),
-                     dirs_exist_ok=True)
+            with open(extraction_target / VERSION_FNAME, 'w') as w:
+                w.write(self.remote_version)
 
-        with open(self.model_dir / VERSION_FNAME, 'w') as w:
-            w.write(self.remote_version)
+            # Replace model_dir, leaving nothing of the previous version
+            previous = Path(staging_dir) / 'previous'
+            if target.exists():
+                os.replace(target, previous)
+            try:
+                os.replace(extraction_target, target)
+            except BaseException:
+                if previous.exists():
+                    os.replace(previous, target)
+                raise
 
     def get_latest_remote_version(self) -> str:
         """Retrieve the latest model version number from server."""
-- 
2.43.0


From d45954f7d56ec0071e67e391dcaca3aec0da1603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 14/42] fix: do not accept an empty model version

---
 lambeq/text2diagram/model_based_reader/model_downloader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lambeq/text2diagram/model_based_reader/model_downloader.py b/lambeq/text2diagram/model_based_reader/model_downloader.py
index c0ae323..8f236bc 100644
--- a/lambeq/text2diagram/model_based_reader/model_downloader.py
+++ b/lambeq/text2diagram/model_based_reader/model_downloader.py
@@ -243,6 +243,8 @@ class ModelDownloader:
                     'Received response status code: '
                     f'{response.status_code}')
             remote_version: str = response.text.strip()
+            if not remote_version:
+                raise ModelDownloaderError('Received an empty response')
         except Exception as e:
             raise ModelDownloaderError(
                 'Failed to retrieve remote version number from '
-- 
2.43.0


From 7b771adbd731d0952e8ade67cba11be107afc0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 15/42] fix: treat malformed answers of the parsing service as
 parse failures

Answers that are not derivations raised KeyError and the like even with
exceptions suppressed, and a stalled server blocked the caller forever.
---
 lambeq/text2diagram/web_parser.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lambeq/text2diagram/web_parser.py b/lambeq/text2diagram/web_parser.py
index ee15246..436c0dc 100644
--- a/lambeq/text2diagram/web_parser.py
+++ b/lambeq/text2diagram/web_parser.py
@@ -36,6 +36,8 @@ from lambeq.text2diagram.ccg_tree import CCGTree
 SERVICE_URLS = {
     'depccg': 'https://cqc.pythonanywhere.com/tree/json'
 }
+# Time in seconds to wait for a connection and for data on it.
+TIMEOUT = (30, 300)
 
 
 class WebParseError(OSError):
@@ -151,7 +153,9 @@ class WebParser(CCGParser):
             params = {'sentence': sentence}
 
             try:
-                data = requests.get(self.service_url, params=params).json()
+                data = requests.get(self.service_url,
+                                    params=params,
+                                    timeout=TIMEOUT).json()
             except requests.RequestException as e:
                 if suppress_exceptions:
                     tree = None
@@ -160,7 +164,14 @@ class WebParser(CCGParser):
                 else:
                     raise e
             else:
-                tree = CCGTree.from_json(data)
+                try:
+                    tree = CCGTree.from_json(data)
+                    if tree is None:
+                        raise ValueError('the server returned no tree')
+                except Exception as e:
+                    if not suppress_exceptions:
+                        raise WebParseError(str(sentence)) from e
+                    tree = None
             trees.append(tree)
 
         for i in empty_indices:
-- 
2.43.0


From 8b27435b8dc48a34081260f730a5e17d5051f578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 16/42] fix: contain damage when reading CCGBank sections

A file torn after an ID line raised RuntimeError, a lost tree line also
cost the following entry, and undecodable bytes cost the whole section,
even with exceptions suppressed.
---
 lambeq/text2diagram/ccgbank_parser.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/lambeq/text2diagram/ccgbank_parser.py b/lambeq/text2diagram/ccgbank_parser.py
index e51f362..200d99e 100644
--- a/lambeq/text2diagram/ccgbank_parser.py
+++ b/lambeq/text2diagram/ccgbank_parser.py
@@ -75,6 +75,9 @@ class CCGBankParser(CCGParser):
                               .*              # rest of the line is ignored
                            """, re.DOTALL | re.VERBOSE)
 
+    # bytes that could not be decoded, as read by `section2trees_gen`
+    undecodable_regex = re.compile('[\udc80-\udcff]')
+
     tree_regex = re.compile(r"""
         \(<                                 # begin with literal "(<"
            ((?P<is_leaf>        L)|T) \s+   # "L" or "T" depending on node type
@@ -194,7 +197,7 @@ class CCGBankParser(CCGParser):
                              'CCGBankParser.')
         path = self.root / 'data' / 'AUTO' / f'{section_id:02}'
         for file in sorted(path.iterdir()):
-            with open(file) as f:
+            with open(file, errors='surrogateescape') as f:
                 if verbose == VerbosityLevel.TEXT.value:
                     print(f'Parsing `{file}`', file=sys.stderr)
                 line_no = 0
@@ -205,11 +208,20 @@ class CCGBankParser(CCGParser):
                         disable=verbose != VerbosityLevel.PROGRESS.value):
                     line_no += 1
                     match = self.id_regex.fullmatch(line)
-                    if match:
+                    if not match and not suppress_exceptions:
+                        raise CCGBankParseError('Failed to parse ID in '
+                                                f'`{file}` line {line_no}')
+                    while match:
                         line_no += 1
+                        line = next(f, '')
+                        next_match = self.id_regex.fullmatch(line)
                         tree = None
                         try:
-                            tree = self.sentence2tree(next(f).strip())
+                            if next_match:
+                                raise CCGBankParseError('missing tree')
+                            if self.undecodable_regex.search(line):
+                                raise CCGBankParseError('undecodable text')
+                            tree = self.sentence2tree(line.strip())
                         except CCGBankParseError as e:
                             if not suppress_exceptions:
                                 raise CCGBankParseError(
@@ -217,9 +229,7 @@ class CCGBankParser(CCGParser):
                                     f'line {line_no}: {e.message}'
                                 ) from e
                         yield match['id'], tree
-                    elif not suppress_exceptions:
-                        raise CCGBankParseError('Failed to parse ID in '
-                                                f'`{file}` line {line_no}')
+                        match = next_match
 
     def section2diagrams(
         self,
-- 
2.43.0


From 28f7b472ce731c3919b9076c40206e01a12d3aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 17/42] fix: do not lose a whole batch when tagging one
 sentence fails

Bobcat raised the error of the tagger, naming no sentence, even with
exceptions suppressed.
---
 .../model_based_reader/bobcat_parser.py       | 34 +++++++++++++++++--
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/lambeq/text2diagram/model_based_reader/bobcat_parser.py b/lambeq/text2diagram/model_based_reader/bobcat_parser.py
index d4b5f43..7070010 100644
--- a/lambeq/text2diagram/model_based_reader/bobcat_parser.py
+++ b/lambeq/text2diagram/model_based_reader/bobcat_parser.py
@@ -35,9 +35,10 @@ from transformers import AutoTokenizer
 from lambeq.bobcat import (BertForChartClassification, Category,
                            ChartParser, Grammar, ParseTree,
                            Sentence, Supertag, Tagger)
-from lambeq.bobcat.tagger import TaggerOutputSentence
+from lambeq.bobcat.tagger import TaggerOutput, TaggerOutputSentence
 from lambeq.core.globals import VerbosityLevel
-from lambeq.core.utils import SentenceBatchType
+from lambeq.core.utils import (SentenceBatchType,
+                               TokenisedSentenceBatchType)
 from lambeq.text2diagram.ccg_parser import CCGParser
 from lambeq.text2diagram.ccg_rule import CCGRule
 from lambeq.text2diagram.ccg_tree import CCGTree
@@ -201,6 +202,25 @@ class BobcatParser(ModelBasedReader, CCGParser):
                  for start, end, scores in sent.spans}
         return Sentence(sent.words, sent_tags, spans)
 
+    def _tag_individually(self,
+                          sentences: TokenisedSentenceBatchType,
+                          suppress_exceptions: bool) -> TaggerOutput:
+        """Tag sentences one by one, with `None` for those that fail."""
+        output = TaggerOutput(tags=self.tagger.model.config.tags,
+                              cats=self.tagger.model.config.cats,
+                              sentences=[])
+        for sentence in sentences:
+            try:
+                result = self.tagger([sentence],
+                                     verbose=VerbosityLevel.SUPPRESS.value)
+            except Exception as e:
+                if not suppress_exceptions:
+                    raise BobcatParseError(' '.join(sentence)) from e
+                output.sentences.append(None)   # type: ignore[arg-type]
+            else:
+                output.sentences.extend(result.sentences)
+        return output
+
     def sentences2trees(
         self,
         sentences: SentenceBatchType,
@@ -249,7 +269,12 @@ class BobcatParser(ModelBasedReader, CCGParser):
         if sentences_valid:
             if verbose == VerbosityLevel.TEXT.value:
                 print('Tagging sentences.', file=sys.stderr)
-            tag_results = self.tagger(sentences_valid, verbose=verbose)
+            try:
+                tag_results = self.tagger(sentences_valid, verbose=verbose)
+            except Exception:
+                # Find the sentences that cannot be tagged
+                tag_results = self._tag_individually(sentences_valid,
+                                                     suppress_exceptions)
             tags = tag_results.tags
             if verbose == VerbosityLevel.TEXT.value:
                 print('Parsing tagged sentences.', file=sys.stderr)
@@ -259,6 +284,9 @@ class BobcatParser(ModelBasedReader, CCGParser):
                     leave=False,
                     disable=verbose != VerbosityLevel.PROGRESS.value):
 
+                if sent is None:
+                    trees.append(None)
+                    continue
                 try:
                     sentence_input = self._prepare_sentence(sent, tags)
                     result = self.parser(sentence_input)
-- 
2.43.0


From 5fe39418bc8236244b84528663be814fbb3b9d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:04 +0000
Subject: [PATCH 18/42] fix: do not tag words the tokeniser dropped with scores
 of padding

In a batch, a sentence that was truncated or lost a word in tokenisation
got tags from padding positions; alone it was rejected.
---
 lambeq/bobcat/tagger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lambeq/bobcat/tagger.py b/lambeq/bobcat/tagger.py
index 9ad8e31..8f86f7c 100644
--- a/lambeq/bobcat/tagger.py
+++ b/lambeq/bobcat/tagger.py
@@ -345,7 +345,9 @@ class Tagger:
         tag_output: list[list[TagListT]] = []
         span_output: list[list[TagListT]] = []
 
-        tag_lengths = [len(sentence) for sentence in inputs]
+        # The tokeniser may drop words or truncate the sentence
+        tag_lengths = [sum(map(bool, mask))
+                       for mask in encodings['word_mask']]
         span_lengths = [chart_size(length) for length in tag_lengths]
 
         tag_args = (tag_output,
-- 
2.43.0


From ea3de820fed00e51b34a41d35c8c6c35dfec51a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:37 +0000
Subject: [PATCH 19/42] fix: keep nested backend selections separate per thread

---
 lambeq/backend/numerical_backend.py | 30 ++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/numerical_backend.py b/lambeq/backend/numerical_backend.py
index c53103a..ea8c4f0 100644
--- a/lambeq/backend/numerical_backend.py
+++ b/lambeq/backend/numerical_backend.py
@@ -25,6 +25,7 @@ such as NumPy, JAX, PyTorch, and TensorFlow.
 from __future__ import annotations
 
 from contextlib import contextmanager
+import threading
 from types import ModuleType
 from typing import Callable, Generator
 
@@ -91,9 +92,36 @@ BACKENDS = {
 }
 
 
+class _BackendStack(threading.local):
+    """
+    The names of the selected backends, innermost last.
+
+    Blocks nest separately in every thread, so that no thread can change
+    or remove the selection of another one. The default, which applies
+    outside all blocks, is common to all threads.
+    """
+
+    _default = ['numpy']
+
+    def __init__(self) -> None:
+        self._names: list[str] = []
+
+    def __getitem__(self, index: int) -> str:
+        return (self._names or self._default)[index]
+
+    def __setitem__(self, index: int, name: str) -> None:
+        (self._names or self._default)[index] = name
+
+    def append(self, name: str) -> None:
+        self._names.append(name)
+
+    def pop(self) -> str:
+        return self._names.pop()
+
+
 @contextmanager
 def backend(name: str | None = None,
-            _stack=['numpy'],  # noqa: B006
+            _stack=_BackendStack(),  # noqa: B008
             _cache=dict()) -> Generator[Backend, None, None]:  # noqa: B006
     """
     Context manager for matrix backend.
-- 
2.43.0


From 2d70279edb6317f8d5c3b820270d86cb54451aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:59 +0000
Subject: [PATCH 20/42] fix: survive a missing, torn or concurrently updated
 path cache

---
 lambeq/training/tn_path_optimizer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lambeq/training/tn_path_optimizer.py b/lambeq/training/tn_path_optimizer.py
index 377a1bc..8305c9e 100644
--- a/lambeq/training/tn_path_optimizer.py
+++ b/lambeq/training/tn_path_optimizer.py
@@ -194,10 +194,16 @@ class CachedTnPathOptimizer(TnPathOptimizer):
                     self.cached_paths = pickle.load(f)
             except FileNotFoundError:
                 # Make sure the path exists for future use.
-                self.filepath.mkdir(parents=True, exist_ok=True)
+                Path(self.filepath).parent.mkdir(parents=True, exist_ok=True)
             except EOFError:
                 # No previous paths present; continue.
                 pass
+            except (pickle.UnpicklingError, AttributeError, ImportError,
+                    IndexError, KeyError, TypeError, ValueError):
+                # The file was not written completely; start afresh.
+                pass
+            if not isinstance(self.cached_paths, dict):
+                self.cached_paths = {}
 
     def __call__(
         self,
@@ -238,6 +244,7 @@ class CachedTnPathOptimizer(TnPathOptimizer):
                 inputs, output, size_dict, memory_limit, edge_list
             )
             self.add_paths({key: path})
+            return path
 
         return self.cached_paths[key]
 
-- 
2.43.0


From 907a1de410115977643413a643aa6e23b40b3f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:59 +0000
Subject: [PATCH 21/42] fix: keep traced tensors when contracting in node order

---
 lambeq/training/tn_path_optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lambeq/training/tn_path_optimizer.py b/lambeq/training/tn_path_optimizer.py
index 8305c9e..1b47e1b 100644
--- a/lambeq/training/tn_path_optimizer.py
+++ b/lambeq/training/tn_path_optimizer.py
@@ -326,8 +326,11 @@ def ordered_nodes_contractor(
         if not edge.is_disabled:
             # if it is disabled we already contracted it
             if edge.is_trace():
+                traced_node = edge.node1
                 nodes_set.remove(edge.node1)
-                nodes_set.add(contract_parallel(edge))
+                new_node = contract_parallel(edge)
+                nodes_set.add(new_node)
+                nodes = [new_node if n is traced_node else n for n in nodes]
 
     if len(nodes_set) == 1:
         # There's nothing to contract.
-- 
2.43.0


From 111b78d4ca325666bb686c1c53f3b18836e33a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:17 +0000
Subject: [PATCH 22/42] fix: run circuits with the configured number of shots

TketModel passes its backend configuration, whose field is 'shots', but
only 'n_shots' was looked up, so every circuit ran with 1024 shots.
---
 lambeq/backend/converters/tk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index ed7fb63..bc5290c 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -159,7 +159,7 @@ class Circuit(tk.Circuit):
                    backend=None,
                    **params) -> list[np.ndarray]:
         """Runs a circuit on a backend and returns the counts."""
-        n_shots = params.get('n_shots', 2**10)
+        n_shots = params.get('n_shots', params.get('shots', 2**10))
         scale = params.get('scale', True)
         post_select = params.get('post_select', True)
         compilation = params.get('compilation', None)
-- 
2.43.0


From 47bd8cbf32345eb113bffebeec1cd9a1af6b97a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:41 +0000
Subject: [PATCH 23/42] fix: convert rotations by a zero angle and CRy gates to
 t|ket>

An angle of exactly zero, and every CRy gate, were converted without a
parameter, which pytket rejects, so evaluating such a circuit on a
device raised RuntimeError.
---
 lambeq/backend/converters/tk.py | 2 +-
 lambeq/backend/quantum.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index bc5290c..a55d12e 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -251,7 +251,7 @@ def to_tk(diagram: Diagram) -> Circuit:
         elif gate.gtype not in OPTYPE_MAP:
             raise NotImplementedError(f'Gate {gate.gtype} not supported')
 
-        if gate.phase:
+        if gate.phase is not None:
             op = Op.create(OPTYPE_MAP[gate.gtype], 2 * gate.phase)
         else:
             op = Op.create(OPTYPE_MAP[gate.gtype])
diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 5f836f5..71572e9 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1600,7 +1600,7 @@ class Gate:
             control = sorted(qubits[:-1])
             gate_q = qubits[-1]
 
-            if gtype in ('CRx', 'CRz'):
+            if gtype in ('CRx', 'CRy', 'CRz'):
                 phase = box.phase
                 if use_sympy and isinstance(box.phase, Symbol):
                     # Tket uses sympy, lambeq uses custom symbol
-- 
2.43.0


From 17a6188ff37b28906c305baae0bef2d0052f0f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:41 +0000
Subject: [PATCH 24/42] fix: prepare qubits in state 1 when reading off a
 circuital diagram

A diagram that already was circuital kept its Ket(1) boxes, which were
then taken for Ket(0).
---
 lambeq/backend/quantum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 71572e9..f6d43b2 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1682,7 +1682,9 @@ def readoff_circuital(diagram: Diagram,
 
     for layer in layers:
         if isinstance(layer.box, Ket):
-            pass
+            if layer.box.bit:
+                gates.append(Gate.from_box(X, len(layer.left),
+                                           use_sympy=use_sympy))
         elif isinstance(layer.box, Measure):
             qi = available_qubits[layer.left.count(qubit)]
             available_qubits.remove(qi)
-- 
2.43.0


From 15cb5bb1a46161d95501d97ae27b4978e0d2681c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:28 +0000
Subject: [PATCH 25/42] fix: post-select the qubits that were meant on t|ket>
 devices

to_tk gives the post-selection by qubit, but the counts were filtered
by the bits of the same numbers.  Whenever qubits are measured into
other bits, as in the circuit of nearly every sentence, the results of
the wrong qubits were discarded.
---
 lambeq/backend/converters/tk.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index a55d12e..ae14f15 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -149,6 +149,14 @@ class Circuit(tk.Circuit):
         self.post_selection.update(post_selection)
         return self
 
+    def _post_selected_bits(self) -> dict[int, int]:
+        """Post-selected values by the bits the qubits are measured to."""
+        bits = {command.qubits[0].index[0]: command.bits[0].index[0]
+                for command in self.get_commands()
+                if command.op.type == OpType.Measure}
+        return {bits.get(index, index): value
+                for index, value in self.post_selection.items()}
+
     def post_process(self, process: Diagram) -> Self:
         """Classical post-processing."""
         self.post_processing >>= process
@@ -169,6 +177,10 @@ class Circuit(tk.Circuit):
         if measure_all:
             for circuit in (self, ) + others:
                 circuit.measure_all()
+        # post-selection is given by qubit, and has to be looked up by the
+        # bit the qubit is measured into before compilation moves qubits
+        post_selections = [circuit._post_selected_bits()
+                           for circuit in (self, ) + others]
         if compilation is not None:
             for circuit in (self, ) + others:
                 compilation.apply(circuit)
@@ -178,14 +190,14 @@ class Circuit(tk.Circuit):
         if normalize:
             counts = list(map(probs_from_counts, counts))
         if post_select:
-            for i, circuit in enumerate((self, ) + others):
+            for i, post_selection in enumerate(post_selections):
                 post_selected = dict()
                 for bitstring, count in counts[i].items():
                     if all(bitstring[index] == value
-                           for index, value in circuit.post_selection.items()):
+                           for index, value in post_selection.items()):
                         key = tuple(
                             value for index, value in enumerate(bitstring)
-                            if index not in circuit.post_selection)
+                            if index not in post_selection)
                         post_selected.update({key: count})
                 counts[i] = post_selected
         if scale:
@@ -342,9 +354,8 @@ def from_tk(tk_circuit: tk.Circuit) -> Diagram:
     for tk_gate in tk_circ.get_commands():
         if tk_gate.op.type.name == 'Measure':
             offset: int = tk_gate.qubits[0].index[0]
-            bit_index: int = tk_gate.bits[0].index[0]
-            if bit_index in tk_circ.post_selection:
-                bras[offset] = tk_circ.post_selection[bit_index]
+            if offset in tk_circ.post_selection:
+                bras[offset] = tk_circ.post_selection[offset]
                 continue  # post selection happens at the end
             left = circuit.cod[:offset]
             right = circuit.cod[offset + 1:]
-- 
2.43.0


From c24db82b450656177ed6cdc07626fad432fa9304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:28 +0000
Subject: [PATCH 26/42] fix: evaluate circuits without open wires in TketModel

There is nothing to measure in them, and building an empty layer of
measurements raised TypeError.
---
 lambeq/training/tket_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lambeq/training/tket_model.py b/lambeq/training/tket_model.py
index 28fe1a4..b50bca9 100644
--- a/lambeq/training/tket_model.py
+++ b/lambeq/training/tket_model.py
@@ -95,6 +95,7 @@ class TketModel(QuantumModel):
                              'from pre-trained checkpoint.')
 
         measured = [diagram >> Id().tensor(*[Measure()] * len(diagram.cod))
+                    if diagram.cod else diagram
                     for diagram in diagrams]  # noqa: E501
         measured = self._fast_subs(measured, self.weights)
 
-- 
2.43.0


From d0578899583f04c45b0aad0708a4a47771971590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:46 +0000
Subject: [PATCH 27/42] fix: compare daggered quantum boxes by the boxes they
 dagger

The generated comparison of two separate copies raised ValueError for
gates whose data is an array.
---
 lambeq/backend/quantum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index f6d43b2..783928b 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1152,6 +1152,7 @@ class Daggered(tensor.Daggered, Box):
 
     __hash__: Callable[[Box], int] = Box.__hash__   # type: ignore[assignment]
     __repr__: Callable[[Box], str] = Box.__repr__   # type: ignore[assignment]
+    __eq__ = tensor.Daggered.__eq__
 
 
 class Bit(Box):
-- 
2.43.0


From c047f1cbf433e42c2b30db744cba7f06d3ceb6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:46 +0000
Subject: [PATCH 28/42] fix: forget earlier rewrites when rules are added to a
 Rewriter

---
 lambeq/rewrite/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lambeq/rewrite/base.py b/lambeq/rewrite/base.py
index 2ef4783..8413ae4 100644
--- a/lambeq/rewrite/base.py
+++ b/lambeq/rewrite/base.py
@@ -413,6 +413,10 @@ class Rewriter:
 
     def add_rules(self, *rules: RewriteRule | str) -> None:
         """Add rules to this rewriter."""
+        # Results obtained with fewer rules are no longer valid.
+        self.apply_rewrites = Functor(target_category=grammar,
+                                      ob=self._ob,
+                                      ar=self._ar)
         for rule in rules:
             if isinstance(rule, RewriteRule):
                 self.rules.append(rule)
-- 
2.43.0


From e747db994854c589f893f48ffbdf6f9484ed0d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:46 +0000
Subject: [PATCH 29/42] fix: make functor answers independent of earlier
 applications

The result of an ill-typed mapping was cached before it was checked, so
asking again returned it. Callers were handed the cached object itself,
so changing a result changed later answers.
---
 lambeq/backend/grammar.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 7d9026c..f52114f 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -26,6 +26,7 @@ from collections.abc import Callable, Iterable, Iterator
 from copy import deepcopy
 from dataclasses import dataclass, field, InitVar, replace
 import json
+import pickle
 from typing import Any, ClassVar, Dict, Protocol, Type, TypeVar
 from typing import cast, overload, TYPE_CHECKING
 
@@ -2016,8 +2017,8 @@ class Functor:
         self.target_category = target_category
         self.custom_ob = ob
         self.custom_ar = ar
-        self.ob_cache: dict[Ty, Ty] = {}
-        self.ar_cache: dict[Diagrammable, Diagrammable] = {}
+        self.ob_cache: dict[Ty, bytes] = {}
+        self.ar_cache: dict[Diagrammable, bytes] = {}
 
     @overload
     def __call__(self, entity: Ty) -> Ty: ...
@@ -2049,7 +2050,7 @@ class Functor:
         """Apply the functor to a type, caching the result."""
         try:
             # Faster deepcopy
-            return fast_deepcopy(    # type: ignore[no-any-return]
+            return pickle.loads(  # type: ignore[no-any-return]
                 self.ob_cache[ob]
             )
         except KeyError:
@@ -2060,14 +2061,13 @@ class Functor:
         else:
             ret = ob.apply_functor(self)
 
-        self.ob_cache[ob] = ret
-        return ret
+        return self._store(self.ob_cache, ob, ret)
 
     def ar_with_cache(self, ar: Diagrammable) -> Diagrammable:
         """Apply the functor to a diagrammable, caching the result."""
         try:
             # Faster deepcopy
-            return fast_deepcopy(    # type: ignore[no-any-return]
+            return pickle.loads(  # type: ignore[no-any-return]
                 self.ar_cache[ar]
             )
         except KeyError:
@@ -2078,8 +2078,6 @@ class Functor:
         else:
             ret = self.target_category.Diagram.id(self.ob_with_cache(ar.dom))
 
-        self.ar_cache[ar] = ret
-
         cod_check = self.ob_with_cache(ar.cod)
         dom_check = self.ob_with_cache(ar.dom)
         if ret.cod != cod_check or ret.dom != dom_check:
@@ -2087,7 +2085,20 @@ class Functor:
                             f'to a box returns dom = {ret.dom}, cod = '
                             f'{ret.cod} expected dom = {dom_check}, cod = '
                             f'{cod_check}')
-        return ret
+
+        return self._store(self.ar_cache, ar, ret)
+
+    @staticmethod
+    def _store(cache: dict[Any, bytes], entity: Any, ret: Any) -> Any:
+        """Cache a result, and return a copy that shares nothing with
+        the cache or with the objects used by the mappings."""
+        try:
+            entity, dumped = fast_deepcopy(entity), pickle.dumps(ret)
+        except (AttributeError, TypeError, pickle.PicklingError):
+            return ret  # results that cannot be copied are not cached
+
+        cache[entity] = dumped
+        return pickle.loads(dumped)
 
     def ob(self, ob: Ty) -> Ty:
         """Apply the functor to a type."""
-- 
2.43.0


From 391c41745ed0e9f406ba84d1b00ba9e4159fcbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 30/42] fix: iterate empty datasets

An empty dataset could not be created without a batch size, or iterated
over when shuffled.
---
 lambeq/training/dataset.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lambeq/training/dataset.py b/lambeq/training/dataset.py
index 7b2243b..2261387 100644
--- a/lambeq/training/dataset.py
+++ b/lambeq/training/dataset.py
@@ -76,7 +76,7 @@ class Dataset:
         self.shuffle = shuffle
 
         if self.batch_size == 0:
-            self.batch_size = len(self.data)
+            self.batch_size = max(len(self.data), 1)
 
         self.batches_per_epoch = ceil(len(self.data) / self.batch_size)
 
@@ -131,8 +131,7 @@ class Dataset:
         """
         joint_list = list(zip(data, targets))
         random.shuffle(joint_list)
-        data_tuple, targets_tuple = zip(*joint_list)
-        return list(data_tuple), list(targets_tuple)
+        return [x for x, _ in joint_list], [y for _, y in joint_list]
 
 
 def flatten(diagrams: Iterable[Any]) -> Iterator[Diagram]:
-- 
2.43.0


From 892084578b688c287a0b8074afa4dd7aaed4ae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:34 +0000
Subject: [PATCH 31/42] fix: extend the table of chart spans atomically

Threads that extended it at the same time, or an interrupt during an
extension, left it wrong for the rest of the process.
---
 lambeq/bobcat/tagger.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/lambeq/bobcat/tagger.py b/lambeq/bobcat/tagger.py
index 8f86f7c..1691b60 100644
--- a/lambeq/bobcat/tagger.py
+++ b/lambeq/bobcat/tagger.py
@@ -53,20 +53,18 @@ def get_chart_spans(length: int) -> list[_SpanT]:
     if size <= len(SPAN_MEMO):
         return SPAN_MEMO[:size]
 
-    try:
-        last_end = SPAN_MEMO[-1][1]
-    except IndexError:
-        last_end = -1
-
-    for end in range(last_end + 1, length):
-        SPAN_MEMO.extend((start, end) for start in reversed(range(end + 1)))
-    return SPAN_MEMO[:]
+    # build the whole table before storing it, since threads share it
+    spans = [(start, end) for end in range(length)
+             for start in reversed(range(end + 1))]
+    SPAN_MEMO[:] = spans
+    return spans
 
 
 def idx2span(i: int) -> _SpanT:
-    if len(SPAN_MEMO) <= i:
-        get_chart_spans(int((2*i) ** 0.5) + 1)
-    return SPAN_MEMO[i]
+    try:
+        return SPAN_MEMO[i]
+    except IndexError:
+        return get_chart_spans(int((2*i) ** 0.5) + 1)[i]
 
 
 def span2idx(x: int, y: int) -> int:
-- 
2.43.0


From 48bbf9b162cb0ac807406cf03eafa5dddd944fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:34 +0000
Subject: [PATCH 32/42] fix: build mixed tensor networks for the active backend

They were built for tensornetwork's default, which other threads
change while they evaluate models.
---
 lambeq/backend/quantum.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 783928b..5715ae0 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -495,11 +495,17 @@ class Diagram(tensor.Diagram):
 
             diag >>= Id(left) @ subdiag @ Id(right)
 
-        c_nodes = [tn.CopyNode(2, 2, f'c_input_{i}', dtype=complex)
+        # tensornetwork's own default is shared between threads
+        tn_backend = get_backend().name
+
+        c_nodes = [tn.CopyNode(2, 2, f'c_input_{i}', dtype=complex,
+                               backend=tn_backend)
                    for i in range(list(diag.dom).count(bit))]
-        q_nodes1 = [tn.CopyNode(2, 2, f'q1_input_{i}', dtype=complex)
+        q_nodes1 = [tn.CopyNode(2, 2, f'q1_input_{i}', dtype=complex,
+                                backend=tn_backend)
                     for i in range(list(diag.dom).count(qubit))]
-        q_nodes2 = [tn.CopyNode(2, 2, f'q2_input_{i}', dtype=complex)
+        q_nodes2 = [tn.CopyNode(2, 2, f'q2_input_{i}', dtype=complex,
+                                backend=tn_backend)
                     for i in range(list(diag.dom).count(qubit))]
 
         inputs = [n[0] for n in c_nodes + q_nodes1 + q_nodes2]
@@ -525,12 +531,15 @@ class Diagram(tensor.Diagram):
 
             elif box.is_mixed:
                 if isinstance(box, (Measure, Encode)):
-                    node = tn.CopyNode(3, 2, 'cq_' + str(box), dtype=complex)
+                    node = tn.CopyNode(3, 2, 'cq_' + str(box), dtype=complex,
+                                       backend=tn_backend)
 
                 elif isinstance(box, (MixedState)):
-                    node = tn.CopyNode(2, 2, 'cq_' + str(box), dtype=complex)
+                    node = tn.CopyNode(2, 2, 'cq_' + str(box), dtype=complex,
+                                       backend=tn_backend)
                 else:
-                    node = tn.Node(box.data + 0j, 'cq_' + str(box))
+                    node = tn.Node(box.data + 0j, 'cq_' + str(box),
+                                   backend=tn_backend)
 
                 c_dom = list(box.dom).count(bit)
                 q_dom = list(box.dom).count(qubit)
@@ -565,10 +574,12 @@ class Diagram(tensor.Diagram):
                                                 scan[q_offset])
                 else:
                     utensor = box.array
-                    node1 = tn.Node(utensor + 0j, 'q1_' + str(box))
+                    node1 = tn.Node(utensor + 0j, 'q1_' + str(box),
+                                    backend=tn_backend)
                     with backend() as np:
                         node2 = tn.Node(np.conj(utensor) + 0j,
-                                        'q2_' + str(box))
+                                        'q2_' + str(box),
+                                        backend=tn_backend)
 
                     for i in range(len(box.dom)):
                         tn.connect(q_scan1[q_offset + i], node1[i])
-- 
2.43.0


From e4f6993f50446f5839c9f04eb53ec621daf6c8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:40 +0000
Subject: [PATCH 33/42] fix: load the stored mode of a command-line run

The default of --mode took precedence over the loaded arguments.
---
 lambeq/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lambeq/cli.py b/lambeq/cli.py
index c97079b..4a96e02 100644
--- a/lambeq/cli.py
+++ b/lambeq/cli.py
@@ -611,6 +611,8 @@ class DiagramSaveModule(CLIModule):
 
 def main() -> None:
     parser = prepare_parser()
+    # defaults must not take precedence over loaded arguments
+    parser.set_defaults(**dict.fromkeys(DEFAULT_ARG_VALUES))
     cl_args = parser.parse_args()
     if cl_args.load_args is not None:
         saved_args = yaml.load(open(cl_args.load_args, 'r'),
-- 
2.43.0


From 3dc1bb87a032cf0eae7b938dc0c6864fd147ddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:19 +0000
Subject: [PATCH 34/42] fix: write images to the given output file

The leading dot made every extension look unknown, so the extension of
the given file was replaced.
---
 lambeq/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/cli.py b/lambeq/cli.py
index 4a96e02..c6110c8 100644
--- a/lambeq/cli.py
+++ b/lambeq/cli.py
@@ -592,7 +592,7 @@ class DiagramSaveModule(CLIModule):
                 else:
                     image_path = cl_args.output_file
                     file_name, file_extension = os.path.splitext(image_path)
-                    if file_extension not in AVAILABLE_IMAGE_TYPES:
+                    if file_extension[1:] not in AVAILABLE_IMAGE_TYPES:
                         image_path = f'{file_name}.{cl_args.image_format}'
                 draw_args: dict[str, Any] = {'path': image_path}
                 if ('fig_width' in cl_args.output_options
-- 
2.43.0


From 732189d8cbea9d4dd4919cf19c1443cf17a24512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:58 +0000
Subject: [PATCH 35/42] fix: a model directory without a version label is not
 an installed model

---
 lambeq/text2diagram/model_based_reader/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lambeq/text2diagram/model_based_reader/base.py b/lambeq/text2diagram/model_based_reader/base.py
index 00ed091..a6b6f0b 100644
--- a/lambeq/text2diagram/model_based_reader/base.py
+++ b/lambeq/text2diagram/model_based_reader/base.py
@@ -111,6 +111,7 @@ class ModelBasedReader(Reader):
             self.model_dir = downloader.model_dir
             if (self.force_download
                     or not self.model_dir.is_dir()
+                    or downloader.get_local_model_version() is None
                     or downloader.model_is_stale()):
                 try:
                     downloader.download_model(self.verbose)
-- 
2.43.0


From 2dbcc03f7505da4f9cf30a63030740720d178e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:08 +0000
Subject: [PATCH 36/42] fix: do not train on when resuming a run that had
 stopped early

---
 lambeq/training/trainer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lambeq/training/trainer.py b/lambeq/training/trainer.py
index 523e39b..94989f4 100644
--- a/lambeq/training/trainer.py
+++ b/lambeq/training/trainer.py
@@ -583,12 +583,20 @@ class Trainer(ABC):
                         past_vals.index(best_val_criterion) + 1)
                     best_epoch = ceil(
                         best_step / train_dataset.batches_per_epoch)
+                # do not train on when the run had already stopped early
+                early_stopping = self._check_early_stopping(
+                    early_stopping_criterion,
+                    early_stopping_interval,
+                    minimize_criterion
+                )
             for epoch in trange(self.start_epoch,
                                 self.epochs + 1,
                                 desc='Epoch',
                                 disable=disable_tqdm,
                                 leave=False,
                                 position=1):
+                if early_stopping:
+                    break
 
                 epoch_start = time.perf_counter()
                 train_losses: list[tuple[int, Any]] = []
-- 
2.43.0


From f6c24751811e35faae3989c5d98d2435d00c1dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:03 +0000
Subject: [PATCH 37/42] fix: leave the caller's list of sentences alone when
 parsing with depccg

---
 lambeq/text2diagram/depccg_parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lambeq/text2diagram/depccg_parser.py b/lambeq/text2diagram/depccg_parser.py
index 3d844a7..dc012d2 100644
--- a/lambeq/text2diagram/depccg_parser.py
+++ b/lambeq/text2diagram/depccg_parser.py
@@ -274,8 +274,7 @@ class DepCCGParser(CCGParser):
                 else:
                     raise ValueError('sentence is empty.')
 
-        for i in reversed(empty_indices):
-            del sentences[i]
+        sentences = [s for s in sentences if s]
 
         trees = self._last_trees = []
         if sentences:
-- 
2.43.0


From 3feeca2edcb3b8065a8a0963f0a3ba994c2828b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:03 +0000
Subject: [PATCH 38/42] fix: one unconvertible depccg tree no longer fails the
 whole batch

---
 lambeq/text2diagram/depccg_parser.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lambeq/text2diagram/depccg_parser.py b/lambeq/text2diagram/depccg_parser.py
index dc012d2..880f439 100644
--- a/lambeq/text2diagram/depccg_parser.py
+++ b/lambeq/text2diagram/depccg_parser.py
@@ -280,12 +280,17 @@ class DepCCGParser(CCGParser):
         if sentences:
             parses = self._depccg_parse(sentences)
             for (depccg_tree, *_), sentence in zip(parses, sentences):
-                if depccg_tree.score > float('-inf'):
+                try:
+                    if not depccg_tree.score > float('-inf'):
+                        raise DepCCGParseError(' '.join(sentence))
                     trees.append(self._build_ccgtree(depccg_tree.tree))
-                elif suppress_exceptions:
-                    trees.append(None)
-                else:
-                    raise DepCCGParseError(' '.join(sentence))
+                except Exception as e:
+                    if suppress_exceptions:
+                        trees.append(None)
+                    elif isinstance(e, DepCCGParseError):
+                        raise
+                    else:
+                        raise DepCCGParseError(' '.join(sentence)) from e
 
         for i in empty_indices:
             trees.insert(i, None)
-- 
2.43.0


From 5cdf7f3ce7695733dd667b4e56420b8eda0625d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:01 +0000
Subject: [PATCH 39/42] fix: decode frames that contain boxes or daggers from
 JSON

---
 lambeq/backend/grammar.py | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index f52114f..b81393d 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -2201,21 +2201,9 @@ class Frame(Box):
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
-        components = []
-        for component_json in data_dict['components']:
-            component_entity = component_json['entity']
-            if component_entity == 'Diagram':
-                component = cls.category.Diagram.from_json(component_json)
-            else:
-                comp_cls = cls.category.Diagram.special_boxes[
-                    component_entity.lower()
-                ]
-                component = comp_cls.from_json(    # type: ignore[attr-defined]
-                    component_json
-                )
-            components.append(component)
-
-        data_dict['components'] = components
+        data_dict['components'] = [cls.category.from_json(component_json)
+                                   for component_json
+                                   in data_dict['components']]
 
         return cls(**data_dict)
 
-- 
2.43.0


From 82cf42fc15adfa1d90330a1c149de8cf42332960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:51 +0000
Subject: [PATCH 40/42] fix: leave JSON data unchanged when decoding it

---
 lambeq/backend/grammar.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index b81393d..37f7eab 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -97,7 +97,7 @@ class Category:
             a :py:class:`~lambeq.backend.Box` subclass,
             or a :py:class:`~lambeq.backend.Diagram` instance.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else dict(data)
         _entity_mapping = {
             'Cap': Cap,
             'Cup': Cup,
@@ -366,7 +366,7 @@ class Ty(Entity):
         :py:class:`~lambeq.backend.Ty`
             The type generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else dict(data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['objects'] = [cls.from_json(obj_data)
                                 for obj_data
@@ -541,7 +541,7 @@ class Box(Entity):
         :py:class:`~lambeq.backend.Box`
             The box generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else dict(data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
@@ -648,7 +648,7 @@ class Layer(Entity):
         :py:class:`~lambeq.backend.grammar.Layer`
             The layer generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else dict(data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         _entity_mapping = {
@@ -1337,7 +1337,7 @@ class Diagram(Entity):
         :py:class:`~lambeq.backend.Diagram`
             The diagram generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else dict(data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
@@ -1508,7 +1508,7 @@ class Cap(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else dict(data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         data_dict['right'] = cls.category.Ty.from_json(data_dict['right'])
@@ -1637,7 +1637,7 @@ class Cup(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else dict(data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         data_dict['right'] = cls.category.Ty.from_json(data_dict['right'])
@@ -1694,7 +1694,7 @@ class Daggered(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else dict(data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         box = cls.category.Box.from_json(data_dict['box'])
 
@@ -1797,7 +1797,7 @@ class Spider(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else dict(data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['type'] = cls.category.Ty.from_json(data_dict['type'])
 
@@ -1890,7 +1890,7 @@ class Swap(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else dict(data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         data_dict['right'] = cls.category.Ty.from_json(data_dict['right'])
@@ -1951,7 +1951,7 @@ class Word(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else dict(data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
 
@@ -2197,7 +2197,7 @@ class Frame(Box):
         :py:class:`~lambeq.backend.Frame`
             The frame generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else dict(data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
@@ -2271,7 +2271,7 @@ class DaggeredFrame(Frame):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> DaggeredFrame:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else dict(data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         frame_cls = cls.category.Diagram.special_boxes['frame']
         frame = frame_cls.from_json(     # type: ignore[attr-defined]
-- 
2.43.0


From 4495a7908719b9728bf653ed8afaa8d69871e663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:46 +0000
Subject: [PATCH 41/42] fix: decode daggered words from JSON

---
 lambeq/backend/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 37f7eab..f64589a 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -1696,7 +1696,7 @@ class Daggered(Box):
     def from_json(cls, data: _JSONDictT | str) -> Self:
         data_dict = json.loads(data) if isinstance(data, str) else dict(data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
-        box = cls.category.Box.from_json(data_dict['box'])
+        box = cls.category.from_json(data_dict['box'])
 
         return box.dagger()  # type: ignore[return-value]
 
-- 
2.43.0


From 3f7eccf648a5df2f142ecbbde798a3b1c3c89403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:22 +0000
Subject: [PATCH 42/42] fix: discard the figure of a drawing that fails

---
 lambeq/backend/drawing/drawing.py         | 138 +++++++++++++---------
 lambeq/backend/drawing/drawing_backend.py |   3 +
 lambeq/backend/drawing/mat_backend.py     |   5 +-
 3 files changed, 86 insertions(+), 60 deletions(-)

diff --git a/lambeq/backend/drawing/drawing.py b/lambeq/backend/drawing/drawing.py
index d8e3c46..aed5eac 100644
--- a/lambeq/backend/drawing/drawing.py
+++ b/lambeq/backend/drawing/drawing.py
@@ -22,6 +22,8 @@ or "Revised" License.
 
 from __future__ import annotations
 
+from collections.abc import Iterator
+from contextlib import contextmanager
 from math import sqrt
 import os
 from tempfile import NamedTemporaryFile, TemporaryDirectory
@@ -58,6 +60,17 @@ if TYPE_CHECKING:
     from IPython.core.display import HTML as HTML_ty
 
 
+@contextmanager
+def _discarded_on_failure(backend: DrawingBackend | None) -> Iterator[None]:
+    """Discard an unfinished drawing when an exception is raised."""
+    try:
+        yield
+    except BaseException:
+        if backend is not None:
+            backend.discard()
+        raise
+
+
 def draw(diagram: Diagram, **params) -> None:
     """Draw a grammar diagram.
 
@@ -130,7 +143,8 @@ def draw(diagram: Diagram, **params) -> None:
     drawable.scale_and_pad(params.get('scale', (1, 1)),
                            params.get('pad', (0, 0)))
 
-    if 'backend' in params:
+    own = 'backend' not in params
+    if not own:
         backend: DrawingBackend = params.pop('backend')
     elif params.get('to_tikz', False):
         backend = TikzBackend(
@@ -147,34 +161,36 @@ def draw(diagram: Diagram, **params) -> None:
                                       MAT_WIRE_LINEWIDTH),
         )
 
-    min_size = 0.01
-    max_v = max([v for point in ([point.coordinates for point in
-                 drawable.wire_endpoints + drawable.boxes]) for v in point]
-                + [min_size])
-
-    params['nodesize'] = round(params.get('nodesize', 1.) / sqrt(max_v), 3)
-
-    for node in drawable.boxes:
-        if isinstance(node.obj, (quantum.Ket, quantum.Bra,  quantum.Bit)):
-            backend = _draw_brakets(backend, drawable, node, **params)
-        elif isinstance(node.obj, quantum.Discard):
-            backend = _draw_discard(backend, drawable, node, **params)
-        elif isinstance(node.obj, quantum.Measure):
-            backend = _draw_measure(backend, drawable, node, **params)
-        elif isinstance(node.obj, quantum.Controlled):
-            backend = _draw_controlled_gate(backend, drawable, node, **params)
-        elif not drawn_as_spider(node.obj):
-            backend = _draw_box(backend, drawable, node, **params)
-
-    # Draw boxes first since they are filled
-    backend = _draw_wires(backend, drawable, **params)
-    backend.draw_spiders(drawable, **params)
-    backend.output(
-        path=params.get('path', None),
-        baseline=0,
-        tikz_options=params.get('tikz_options', None),
-        show=params.get('show', True),
-        margins=params.get('margins', DEFAULT_MARGINS))
+    with _discarded_on_failure(backend if own else None):
+        min_size = 0.01
+        max_v = max([v for point in ([point.coordinates for point in
+                     drawable.wire_endpoints + drawable.boxes]) for v in point]
+                    + [min_size])
+
+        params['nodesize'] = round(params.get('nodesize', 1.) / sqrt(max_v), 3)
+
+        for node in drawable.boxes:
+            if isinstance(node.obj, (quantum.Ket, quantum.Bra,  quantum.Bit)):
+                backend = _draw_brakets(backend, drawable, node, **params)
+            elif isinstance(node.obj, quantum.Discard):
+                backend = _draw_discard(backend, drawable, node, **params)
+            elif isinstance(node.obj, quantum.Measure):
+                backend = _draw_measure(backend, drawable, node, **params)
+            elif isinstance(node.obj, quantum.Controlled):
+                backend = _draw_controlled_gate(backend, drawable, node,
+                                                **params)
+            elif not drawn_as_spider(node.obj):
+                backend = _draw_box(backend, drawable, node, **params)
+
+        # Draw boxes first since they are filled
+        backend = _draw_wires(backend, drawable, **params)
+        backend.draw_spiders(drawable, **params)
+        backend.output(
+            path=params.get('path', None),
+            baseline=0,
+            tikz_options=params.get('tikz_options', None),
+            show=params.get('show', True),
+            margins=params.get('margins', DEFAULT_MARGINS))
 
 
 def draw_pregroup(diagram: Diagram, **params) -> None:
@@ -217,7 +233,8 @@ def draw_pregroup(diagram: Diagram, **params) -> None:
     drawable.scale_and_pad(params.get('scale', (1, 1)),
                            params.get('pad', (0, 0)))
 
-    if 'backend' in params:
+    own = 'backend' not in params
+    if not own:
         backend: DrawingBackend = params.pop('backend')
     elif params.get('to_tikz', False):
         backend = TikzBackend(
@@ -225,20 +242,21 @@ def draw_pregroup(diagram: Diagram, **params) -> None:
     else:
         backend = MatBackend(figsize=params.get('figsize', None))
 
-    backend = _draw_wires(backend, drawable, **params)
-    backend.draw_spiders(drawable, **params)
+    with _discarded_on_failure(backend if own else None):
+        backend = _draw_wires(backend, drawable, **params)
+        backend.draw_spiders(drawable, **params)
 
-    for node in drawable.boxes:
-        if not drawn_as_spider(node.obj):
-            backend = _draw_pregroup_state(backend, node, **params)
+        for node in drawable.boxes:
+            if not drawn_as_spider(node.obj):
+                backend = _draw_pregroup_state(backend, node, **params)
 
-    backend.output(
-        path=params.get('path', None),
-        baseline=len(drawable.boxes) / 2 or .5,
-        tikz_options=params.get('tikz_options', None),
-        show=params.get('show', True),
-        margins=params.get('margins', DEFAULT_MARGINS),
-        aspect=params.get('aspect', DEFAULT_ASPECT))
+        backend.output(
+            path=params.get('path', None),
+            baseline=len(drawable.boxes) / 2 or .5,
+            tikz_options=params.get('tikz_options', None),
+            show=params.get('show', True),
+            margins=params.get('margins', DEFAULT_MARGINS),
+            aspect=params.get('aspect', DEFAULT_ASPECT))
 
 
 def render_as_str(diagram: Diagram,
@@ -368,7 +386,8 @@ def draw_equation(*terms: grammar.Diagram,
     pad = params.get('pad', (0, 0))
     scale_x, scale_y = params.get('scale', (1, 1))
 
-    if 'backend' in params:
+    own = 'backend' not in params
+    if not own:
         backend: DrawingBackend = params.pop('backend')
     elif params.get('to_tikz', False):
         backend = TikzBackend(
@@ -376,22 +395,23 @@ def draw_equation(*terms: grammar.Diagram,
     else:
         backend = MatBackend(figsize=params.get('figsize', None))
 
-    for i, term in enumerate(terms):
-        term.draw(**dict(
-            params, show=False, path=None,
-            backend=backend, scale=(scale_x, scale_y), pad=pad))
-        pad = (backend.max_width + space, 0)
-        if i < len(terms) - 1:
-            backend.draw_text(symbol, pad[0], 0)
-            pad = (pad[0] + space, pad[1])
-
-    return backend.output(
-        path=path,
-        baseline=0,
-        tikz_options=params.get('tikz_options', None),
-        show=params.get('show', True),
-        margins=params.get('margins', DEFAULT_MARGINS),
-        aspect=params.get('aspect', DEFAULT_ASPECT))
+    with _discarded_on_failure(backend if own else None):
+        for i, term in enumerate(terms):
+            term.draw(**dict(
+                params, show=False, path=None,
+                backend=backend, scale=(scale_x, scale_y), pad=pad))
+            pad = (backend.max_width + space, 0)
+            if i < len(terms) - 1:
+                backend.draw_text(symbol, pad[0], 0)
+                pad = (pad[0] + space, pad[1])
+
+        return backend.output(
+            path=path,
+            baseline=0,
+            tikz_options=params.get('tikz_options', None),
+            show=params.get('show', True),
+            margins=params.get('margins', DEFAULT_MARGINS),
+            aspect=params.get('aspect', DEFAULT_ASPECT))
 
 
 def _draw_box(backend: DrawingBackend,
diff --git a/lambeq/backend/drawing/drawing_backend.py b/lambeq/backend/drawing/drawing_backend.py
index 867ca73..8028b7a 100644
--- a/lambeq/backend/drawing/drawing_backend.py
+++ b/lambeq/backend/drawing/drawing_backend.py
@@ -242,3 +242,6 @@ class DrawingBackend(ABC):
             Additional parameters.
 
         """
+
+    def discard(self) -> None:
+        """Discard a drawing that will not be completed."""
diff --git a/lambeq/backend/drawing/mat_backend.py b/lambeq/backend/drawing/mat_backend.py
index 2f598b8..8a2c903 100644
--- a/lambeq/backend/drawing/mat_backend.py
+++ b/lambeq/backend/drawing/mat_backend.py
@@ -44,11 +44,11 @@ class MatBackend(DrawingBackend):
                  figsize: tuple | None = None,
                  box_linewidth: float = BOX_LINEWIDTH,
                  wire_linewidth: float = WIRE_LINEWIDTH):
-        self.axis = axis or plt.subplots(figsize=figsize, facecolor='white')[1]
         self.default_aspect = 'equal' if figsize is None else 'auto'
         self.box_linewidth = box_linewidth
         self.wire_linewidth = wire_linewidth
         self.max_width: float = 0
+        self.axis = axis or plt.subplots(figsize=figsize, facecolor='white')[1]
 
     def draw_text(self, text: str, x: float, y: float, **params) -> None:
         params['fontsize'] = params.get('fontsize', FONTSIZE)
@@ -167,3 +167,6 @@ class MatBackend(DrawingBackend):
             plt.close()
         if show:
             plt.show()
+
+    def discard(self) -> None:
+        plt.close(self.axis.figure)
-- 
2.43.0

