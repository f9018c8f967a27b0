From 1d368cfa37423c14547c37c204a9016213a4829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:07 +0000
Subject: [PATCH 01/46] fix: read HDF5 datasets with [()] in Network.from_hdf5

Dataset.value no longer exists in h5py, so no saved network could be loaded.
---
 brainstorm/structure/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index a0f4dbf..88d39b5 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -95,10 +95,10 @@ class Network(Seedable):
             :meth:`.save_as_hdf5`
         """
         with h5py.File(filename, 'r') as f:
-            description = json.loads(f['description'].value.decode())
+            description = json.loads(f['description'][()].decode())
             net = create_from_description(description)
             net.handler.set_from_numpy(net.buffer.parameters,
-                                       f['parameters'].value)
+                                       f['parameters'][()])
         return net
 
     def __init__(self, layers, buffer_manager, architecture, seed=None,
-- 
2.43.0


From 39e74baebdc563f05e4ce4277315d4f0ad101cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:07 +0000
Subject: [PATCH 02/46] fix: scale Dropout deltas by 1 / (1 - drop_prob) like
 the outputs

---
 brainstorm/layers/dropout_layer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/brainstorm/layers/dropout_layer.py b/brainstorm/layers/dropout_layer.py
index 88c0116..222b7cf 100644
--- a/brainstorm/layers/dropout_layer.py
+++ b/brainstorm/layers/dropout_layer.py
@@ -47,6 +47,9 @@ class DropoutLayerImpl(Layer):
             _h.copy_to(buffers.inputs.default, buffers.outputs.default)
 
     def backward_pass(self, buffers):
-        self.handler.mult_add_tt(buffers.output_deltas.default,
-                                 buffers.internals.mask,
-                                 buffers.input_deltas.default)
+        _h = self.handler
+        tmp = _h.allocate(buffers.internals.mask.shape)
+        _h.mult_tt(buffers.output_deltas.default, buffers.internals.mask,
+                   out=tmp)
+        _h.mult_add_st(1 / (1 - self.drop_prob), tmp,
+                       out=buffers.input_deltas.default)
-- 
2.43.0


From 31663a4d0b289384157b529560cc0b09a50798e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:07 +0000
Subject: [PATCH 03/46] fix: clear only the context rows in
 BufferManager.clear_context

It also zeroed the last context_size real time steps of every buffer that
shares a hub with a recurrent output (e.g. the external input).
---
 brainstorm/structure/buffers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/brainstorm/structure/buffers.py b/brainstorm/structure/buffers.py
index ec773ea..e3d219b 100644
--- a/brainstorm/structure/buffers.py
+++ b/brainstorm/structure/buffers.py
@@ -141,8 +141,7 @@ class BufferManager(object):
         for hub, buf in zip(self.hubs, self.buffers):
             if hub.btype != 2 or not hub.context_size:
                 continue
-            self.handler.fill(
-                buf[self.time_size - hub.context_size:], 0.)
+            self.handler.fill(buf[self.time_size:], 0.)
 
     def clear_backward_buffers(self):
         for h, b in zip(self.hubs, self.buffers):
-- 
2.43.0


From 73076c5ff1a0802f42f4e17fb716f50ce08aab8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:07 +0000
Subject: [PATCH 04/46] fix: use the context activations, not their deltas, in
 LSTM gradients

The gradients of the recurrent and peephole weights for the first time step
multiplied with dy[-1] / dCa[-1] instead of y[-1] / Ca[-1], and the forget
peephole used the input gate deltas.
---
 brainstorm/layers/clockwork_lstm_layer.py | 12 ++++++------
 brainstorm/layers/lstm_layer.py           | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/brainstorm/layers/clockwork_lstm_layer.py b/brainstorm/layers/clockwork_lstm_layer.py
index 37819c8..d40da00 100644
--- a/brainstorm/layers/clockwork_lstm_layer.py
+++ b/brainstorm/layers/clockwork_lstm_layer.py
@@ -303,10 +303,10 @@ class ClockworkLstmLayerImpl(Layer):
         _h.dot_add_mm(flat_dOa, flat_outputs, dRo, transa=True)
         _h.dot_add_mm(flat_dZa, flat_outputs, dRz, transa=True)
 
-        _h.dot_add_mm(dIa[0], dy[-1], dRi, transa=True)
-        _h.dot_add_mm(dFa[0], dy[-1], dRf, transa=True)
-        _h.dot_add_mm(dOa[0], dy[-1], dRo, transa=True)
-        _h.dot_add_mm(dZa[0], dy[-1], dRz, transa=True)
+        _h.dot_add_mm(dIa[0], y[-1], dRi, transa=True)
+        _h.dot_add_mm(dFa[0], y[-1], dRf, transa=True)
+        _h.dot_add_mm(dOa[0], y[-1], dRo, transa=True)
+        _h.dot_add_mm(dZa[0], y[-1], dRz, transa=True)
 
         # Other Peephole connections
         dWcif_tmp = _h.allocate(flat_cell.shape)
@@ -318,9 +318,9 @@ class ClockworkLstmLayerImpl(Layer):
         _h.add_tt(dpf, dWc_tmp, dpf)
 
         dWcif_tmp = _h.allocate(dIa[0].shape)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dIa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpi, dWc_tmp, dpi)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dFa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpf, dWc_tmp, dpf)
diff --git a/brainstorm/layers/lstm_layer.py b/brainstorm/layers/lstm_layer.py
index 8433706..972903c 100644
--- a/brainstorm/layers/lstm_layer.py
+++ b/brainstorm/layers/lstm_layer.py
@@ -255,10 +255,10 @@ class LstmLayerImpl(Layer):
         _h.dot_add_mm(flat_dOa, flat_outputs, dRo, transa=True)
         _h.dot_add_mm(flat_dZa, flat_outputs, dRz, transa=True)
 
-        _h.dot_add_mm(dIa[0], dy[-1], dRi, transa=True)
-        _h.dot_add_mm(dFa[0], dy[-1], dRf, transa=True)
-        _h.dot_add_mm(dOa[0], dy[-1], dRo, transa=True)
-        _h.dot_add_mm(dZa[0], dy[-1], dRz, transa=True)
+        _h.dot_add_mm(dIa[0], y[-1], dRi, transa=True)
+        _h.dot_add_mm(dFa[0], y[-1], dRf, transa=True)
+        _h.dot_add_mm(dOa[0], y[-1], dRo, transa=True)
+        _h.dot_add_mm(dZa[0], y[-1], dRz, transa=True)
 
         # Other Peephole connections
         dWcif_tmp = _h.allocate(flat_cell.shape)
@@ -270,9 +270,9 @@ class LstmLayerImpl(Layer):
         _h.add_tt(dpf, dWc_tmp, dpf)
 
         dWcif_tmp = _h.allocate(dIa[0].shape)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dIa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpi, dWc_tmp, dpi)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dFa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpf, dWc_tmp, dpf)
-- 
2.43.0


From 4abec6159b407d17a1b6757b8e722a43095a1ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:01 +0000
Subject: [PATCH 05/46] fix: accumulate gradients in FullyConnected and
 Convolution2D

Other layers may already have added to the gradients (e.g. a loss on the
parameters), and that contribution was overwritten.
---
 brainstorm/handlers/numpy_handler.py       | 2 --
 brainstorm/handlers/pycuda_handler.py      | 2 --
 brainstorm/layers/fully_connected_layer.py | 6 ++++--
 3 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/brainstorm/handlers/numpy_handler.py b/brainstorm/handlers/numpy_handler.py
index 64a344f..c481391 100644
--- a/brainstorm/handlers/numpy_handler.py
+++ b/brainstorm/handlers/numpy_handler.py
@@ -115,8 +115,6 @@ class NumpyHandler(Handler):
         num_output_pixels = out_deltas.shape[1] * out_deltas.shape[2]
         num_kernel_params = np.prod(kernel_shape)
 
-        dparams.fill(0.0)
-        dbias.fill(0.0)
         col = np.zeros((num_output_pixels, num_kernel_params),
                        dtype=self.dtype)
 
diff --git a/brainstorm/handlers/pycuda_handler.py b/brainstorm/handlers/pycuda_handler.py
index fff34c3..2b8abe3 100644
--- a/brainstorm/handlers/pycuda_handler.py
+++ b/brainstorm/handlers/pycuda_handler.py
@@ -179,8 +179,6 @@ class PyCudaHandler(Handler):
         num_output_pixels = out_deltas.shape[1] * out_deltas.shape[2]
         num_kernel_params = np.prod(kernel_shape)
 
-        dparams.fill(0.0)
-        dbias.fill(0.0)
         tmp = self.zeros(dbias.shape)
         col = self.zeros((num_output_pixels, num_kernel_params))
 
diff --git a/brainstorm/layers/fully_connected_layer.py b/brainstorm/layers/fully_connected_layer.py
index 79f46d4..9c169e5 100644
--- a/brainstorm/layers/fully_connected_layer.py
+++ b/brainstorm/layers/fully_connected_layer.py
@@ -74,5 +74,7 @@ class FullyConnectedLayerImpl(Layer):
         # calculate in_deltas and gradients
         _h.inplace_act_func_deriv[self.activation](outputs, out_deltas)
         _h.dot_add_mm(out_deltas, W, out=in_deltas)
-        _h.dot_mm(out_deltas, inputs, out=dW, transa=True)
-        _h.sum_t(out_deltas, axis=0, out=dbias)
+        _h.dot_add_mm(out_deltas, inputs, out=dW, transa=True)
+        dbias_tmp = _h.allocate(dbias.shape)
+        _h.sum_t(out_deltas, axis=0, out=dbias_tmp)
+        _h.add_tt(dbias, dbias_tmp, out=dbias)
-- 
2.43.0


From 731cf190c7bd30de8101d18791a298b9c7ab6c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:01 +0000
Subject: [PATCH 06/46] fix: let Uniform created from its description have a
 random state

---
 brainstorm/initializers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index 7001f56..9c82c33 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -382,9 +382,13 @@ class Uniform(Initializer):
         super(Uniform, self).__init__()
         self.low = low
         self.high = high
-        self.__init_from_description__(None)
+        self._set_range()
 
     def __init_from_description__(self, description):
+        super(Uniform, self).__init_from_description__(description)
+        self._set_range()
+
+    def _set_range(self):
         if self.high is None:
             self.low, self.high = sorted([-self.low, self.low])
         assert self.low < self.high, \
-- 
2.43.0


From ccb771ae68ad89bf91c02afb25bcf2b4fbd0fefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:01 +0000
Subject: [PATCH 07/46] fix: restore the mask of MaskValues as an array from
 its description

---
 brainstorm/value_modifiers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/brainstorm/value_modifiers.py b/brainstorm/value_modifiers.py
index 0f91e75..dc6aa7a 100644
--- a/brainstorm/value_modifiers.py
+++ b/brainstorm/value_modifiers.py
@@ -137,6 +137,10 @@ class MaskValues(ValueModifier):
         self.mask = mask
         self.device_mask = None
 
+    def __init_from_description__(self, description):
+        super(MaskValues, self).__init_from_description__(description)
+        self.mask = np.array(self.mask)
+
     def __call__(self, handler, view):
         if (self.device_mask is None or
                 not isinstance(self.device_mask, handler.array_type)):
-- 
2.43.0


From 2f1648ed38a0c42c9f92511fccd0e2887013c186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:01 +0000
Subject: [PATCH 08/46] fix: accept arrays and lists as sub-initializers

An ArrayInitializer is described as a plain list, so a SparseInputs,
SparseOutputs or LstmOptInit using one could not be evaluated after it was
created from its description.
---
 brainstorm/initializers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index 9c82c33..1bda9f3 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -403,6 +403,8 @@ class Uniform(Initializer):
 # ########################### helper methods ##################################
 
 def evaluate_initializer(initializer, shape, fallback=None, seed=None):
+    if isinstance(initializer, (list, np.ndarray)):
+        initializer = ArrayInitializer(initializer)
     if isinstance(initializer, Initializer):
         if seed is not None:
             initializer.rnd.set_seed(seed)
-- 
2.43.0


From f7bfe12cf3095b19cefa944050b434e6b1ec5e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:01 +0000
Subject: [PATCH 09/46] fix: seed the sub-initializer of SparseInputs and
 SparseOutputs

net.initialize(..., seed=s) was not reproducible with them.
---
 brainstorm/initializers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index 1bda9f3..9f4e639 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -334,7 +334,8 @@ class SparseInputs(Initializer):
             raise InitializationError("Input dimension to small: {} < {}"
                                       "".format(shape[0], self.connections))
 
-        sub_result = evaluate_initializer(self.sub_initializer, shape)
+        sub_result = evaluate_initializer(self.sub_initializer, shape,
+                                          seed=self.rnd.generate_seed())
         connection_mask = np.zeros(shape)
         connection_mask[:self.connections, :] = 1.
         for i in range(shape[1]):
@@ -363,7 +364,8 @@ class SparseOutputs(Initializer):
         if shape[1] < self.connections:
             raise InitializationError("Output dimension to small: {} < {}"
                                       "".format(shape[1], self.connections))
-        sub_result = evaluate_initializer(self.sub_initializer, shape)
+        sub_result = evaluate_initializer(self.sub_initializer, shape,
+                                          seed=self.rnd.generate_seed())
         connection_mask = np.zeros(shape)
         connection_mask[:, :self.connections] = 1.
         for i in range(shape[0]):
-- 
2.43.0


From 8086e97f3a6c79c854f6c3d5782cbd3de240d977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:01 +0000
Subject: [PATCH 10/46] fix: do not hand out the internal data dict of
 Undivided

Wrapping iterators replace its entries, so the second pass saw data that had
already been transformed.
---
 brainstorm/data_iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index aef02db..530d128 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -394,7 +394,7 @@ class Undivided(DataIterator):
         self.total_size = int(sum(d.size for d in self.data.values()))
 
     def __call__(self, handler=None):
-        yield self.data
+        yield dict(self.data)
 
 
 class Minibatches(DataIterator):
-- 
2.43.0


From 32cf4f84de9dfd936f4eb9aa8480e14ef6aaf97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:01 +0000
Subject: [PATCH 11/46] fix: do not flip the images of the source iterator in
 place

---
 brainstorm/data_iterators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 530d128..245d2cc 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -179,6 +179,7 @@ class Flip(DataIterator):
         for data in self.iter(handler):
             for name in self.prob_dict.keys():
                 assert isinstance(data[name], np.ndarray)
+                data[name] = data[name].copy()
                 for i in range(data[name].shape[1]):
                     if self.rnd.random_sample() < self.prob_dict[name]:
                         data[name][:, i, ...] = data[name][:, i, :, ::-1, :]
-- 
2.43.0


From 432e938ded0df547f4eedb0bb4b48b8fa20cdc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:01 +0000
Subject: [PATCH 12/46] fix: let RandomCrop work on minibatches and float32
 images

---
 brainstorm/data_iterators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 245d2cc..838340e 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -370,8 +370,9 @@ class RandomCrop(DataIterator):
                 max_c = w - crop_w
                 row_indices = self.rnd.random_integers(0, max_r, n)
                 col_indices = self.rnd.random_integers(0, max_c, n)
-                cropped = np.zeros((t, n, crop_h, crop_w, c))
-                _crop_images(data[name], crop_h, crop_w, row_indices,
+                cropped = np.zeros((t, n, crop_h, crop_w, c),
+                                   dtype=data[name].dtype)
+                _crop_images(np.ascontiguousarray(data[name]), crop_h, crop_w, row_indices,
                              col_indices, cropped)
                 data[name] = cropped
             yield data
-- 
2.43.0


From 2ac51f1b4e9ae1fd577920699995e032496b8311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:01 +0000
Subject: [PATCH 13/46] fix: let Pad work with a padding size of 0

---
 brainstorm/data_iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 838340e..6047157 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -319,7 +319,7 @@ class Pad(DataIterator):
                 size = self.size_dict[name]
                 val = self.value_dict.get(name, 0.0)
                 new_data = val * np.ones((t, b, h + 2 * size, w + 2 * size, c))
-                new_data[:, :, size: -size, size: -size, :] = data[name]
+                new_data[:, :, size: size + h, size: size + w, :] = data[name]
                 data[name] = new_data
             yield data
 
-- 
2.43.0


From c0a286ab9d0243fb36c7eb5f2bf035c7950d3b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:01 +0000
Subject: [PATCH 14/46] fix: make the handler optional for MultiHot like for
 all iterators

---
 brainstorm/data_iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 6047157..b5f29e2 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -265,7 +265,7 @@ class MultiHot(DataIterator):
         self.vocab_size_dict = vocab_size_dict
         self.iter = iter
 
-    def __call__(self, handler):
+    def __call__(self, handler=None):
         for data in self.iter(handler):
             for name in self.vocab_size_dict.keys():
                 vocab_size = self.vocab_size_dict[name]
-- 
2.43.0


From d8fb7ad0f3b9a74e9a204a550eafbc4a8bc0b49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:01 +0000
Subject: [PATCH 15/46] fix: avoid NaN from overflowing exp in the el
 activation function

---
 brainstorm/handlers/numpy_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/handlers/numpy_handler.py b/brainstorm/handlers/numpy_handler.py
index c481391..7918baa 100644
--- a/brainstorm/handlers/numpy_handler.py
+++ b/brainstorm/handlers/numpy_handler.py
@@ -300,7 +300,7 @@ class NumpyHandler(Handler):
 
     def el(self, x, y):
         # TODO: Optimize this implementation
-        y[:] = x * (x >= 0.) + (np.exp(x) - 1.) * (x < 0.)
+        y[:] = x * (x >= 0.) + (np.exp(np.minimum(x, 0.)) - 1.) * (x < 0.)
 
     def el_deriv(self, x, y, dy, dx):
         # TODO: Optimize this implementation
-- 
2.43.0


From fb23a5c2dc95e0e2d3e7b1c5afe8e3c50c2e5630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:01 +0000
Subject: [PATCH 16/46] fix: call the existing get_loss_values in
 ForwardStepper

---
 brainstorm/training/steppers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/training/steppers.py b/brainstorm/training/steppers.py
index 286e547..4e0067b 100644
--- a/brainstorm/training/steppers.py
+++ b/brainstorm/training/steppers.py
@@ -40,7 +40,7 @@ class ForwardStepper(TrainingStepper):
 
     def run(self):
         self.net.forward_pass(training_pass=self.use_training_pass)
-        return self.net.get_loss_value()
+        return self.net.get_loss_values()
 
 
 class SgdStepper(TrainingStepper):
-- 
2.43.0


From 119ee5a9f6359b676f7dbe060bde0e227dc76288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:01 +0000
Subject: [PATCH 17/46] fix: correct the log entries for input deltas in
 MonitorLayerDeltas

---
 brainstorm/hooks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 7dd32e4..b3e6c21 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -243,9 +243,9 @@ class MonitorLayerDeltas(Hook):
         for key, v in net.buffer[self.layer_name].input_deltas.items():
             key_log = in_deltas_log[key] = OrderedDict()
             v = net.handler.get_numpy_copy(v)
-            key_log[key]['min'] = v.min()
-            key_log[key]['avg'] = v.mean()
-            key_log[key]['max'] = v.max()
+            key_log['min'] = v.min()
+            key_log['avg'] = v.mean()
+            key_log['max'] = v.max()
 
         return log
 
-- 
2.43.0


From dd785a2d2a3986ceca9ddcea564cb9618cb3c695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 18/46] fix: let layer monitors skip empty buffers before the
 first update

Hooks are called once before training, when the buffers of a fresh network
have size zero and min/max raised a ValueError.
---
 brainstorm/hooks.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index b3e6c21..9c85c0c 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -227,6 +227,8 @@ class MonitorLayerDeltas(Hook):
         for key, v in net.buffer[self.layer_name].internals.items():
             v = net.handler.get_numpy_copy(v)
             log[key] = OrderedDict()
+            if v.size == 0:
+                continue
             log[key]['min'] = v.min()
             log[key]['avg'] = v.mean()
             log[key]['max'] = v.max()
@@ -235,6 +237,8 @@ class MonitorLayerDeltas(Hook):
         for key, v in net.buffer[self.layer_name].output_deltas.items():
             v = net.handler.get_numpy_copy(v)
             key_log = out_deltas_log[key] = OrderedDict()
+            if v.size == 0:
+                continue
             key_log['min'] = v.min()
             key_log['avg'] = v.mean()
             key_log['max'] = v.max()
@@ -243,6 +247,8 @@ class MonitorLayerDeltas(Hook):
         for key, v in net.buffer[self.layer_name].input_deltas.items():
             key_log = in_deltas_log[key] = OrderedDict()
             v = net.handler.get_numpy_copy(v)
+            if v.size == 0:
+                continue
             key_log['min'] = v.min()
             key_log['avg'] = v.mean()
             key_log['max'] = v.max()
@@ -301,6 +307,8 @@ class MonitorLayerInOuts(Hook):
         for key, v in net.buffer[self.layer_name].inputs.items():
             v = net.handler.get_numpy_copy(v)
             key_log = input_log[key] = OrderedDict()
+            if v.size == 0:
+                continue
             key_log['min'] = v.min()
             key_log['avg'] = v.mean()
             key_log['max'] = v.max()
@@ -309,6 +317,8 @@ class MonitorLayerInOuts(Hook):
         for key, v in net.buffer[self.layer_name].outputs.items():
             key_log = output_log[key] = OrderedDict()
             v = net.handler.get_numpy_copy(v)
+            if v.size == 0:
+                continue
             key_log['min'] = v.min()
             key_log['avg'] = v.mean()
             key_log['max'] = v.max()
-- 
2.43.0


From 372bc1d7abb85b4ad711add532d27118a0996b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 19/46] fix: tolerate missing logs before the first epoch in
 stopping hooks

StopAfterThresholdReached and StopOnNan(logs_to_check) raised a KeyError in
the call before training, where e.g. rolling_training does not exist yet.
---
 brainstorm/hooks.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 9c85c0c..227c120 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -609,6 +609,11 @@ class StopAfterThresholdReached(Hook):
         self.criterion = criterion
 
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
+        if epoch_nr == 0:
+            try:
+                e = get_by_path(logs, self.log_name)
+            except KeyError:
+                return
         e = get_by_path(logs, self.log_name)
         is_threshold_reached = False
         if self.criterion == 'max' and max(e) >= self.threshold:
@@ -660,7 +665,12 @@ class StopOnNan(Hook):
 
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
         for log_name in self.logs_to_check:
-            log = get_by_path(logs, log_name)
+            try:
+                log = get_by_path(logs, log_name)
+            except KeyError:
+                if epoch_nr == 0:
+                    continue
+                raise
             if not np.all(np.isfinite(log)):
                 self.message("NaN or inf detected in {}!".format(log_name))
                 raise StopIteration()
-- 
2.43.0


From fd1d0f494bfdafbf1b164a8a9da9053dde942fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 20/46] fix: draw the default handler's randomness from
 global_rnd

global_rnd.set_seed did not make Dropout with the default handler
reproducible.
---
 brainstorm/handlers/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/brainstorm/handlers/__init__.py b/brainstorm/handlers/__init__.py
index ce5ea92..bf987e1 100644
--- a/brainstorm/handlers/__init__.py
+++ b/brainstorm/handlers/__init__.py
@@ -4,6 +4,7 @@ from __future__ import division, print_function
 from brainstorm.handlers.numpy_handler import NumpyHandler
 from brainstorm.handlers.debug_handler import DebugHandler
 from brainstorm.optional import has_pycuda, pycuda_mock
+from brainstorm.randomness import global_rnd
 import numpy as np
 
 if has_pycuda:
@@ -12,5 +13,6 @@ else:
     PyCudaHandler = pycuda_mock
 
 default_handler = NumpyHandler(np.float32)
+default_handler.rnd = global_rnd
 
 __all__ = ['NumpyHandler', 'PyCudaHandler', 'default_handler']
-- 
2.43.0


From ef33c840b2cb1c0a6fb05217683f2217f4b7697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 21/46] fix: do not modify the dictionaries passed to
 initialize and modifiers

---
 brainstorm/structure/network.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index 88d39b5..f67a1d0 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -245,7 +245,7 @@ class Network(Seedable):
         all_parameters = {k: v.parameters
                           for k, v in self.buffer.items()
                           if isinstance(v, BufferView) and 'parameters' in v}
-        _replace_lists_with_array_initializers(init_refs)
+        init_refs = _replace_lists_with_array_initializers(init_refs)
         initializers, fallback = resolve_references(all_parameters, init_refs)
         init_rnd = self.rnd.create_random_state(seed)
         for layer_name, views in sorted(all_parameters.items()):
@@ -545,7 +545,7 @@ def _update_references_with_dict(refs, ref_dict):
     if refs is None:
         references = dict()
     elif isinstance(refs, dict):
-        references = refs
+        references = dict(refs)
     else:
         references = {'default': refs}
 
@@ -559,8 +559,11 @@ def _update_references_with_dict(refs, ref_dict):
 
 
 def _replace_lists_with_array_initializers(ref_dict):
+    new_dict = {}
     for key, value in ref_dict.items():
         if isinstance(value, dict):
-            _replace_lists_with_array_initializers(value)
+            value = _replace_lists_with_array_initializers(value)
         elif isinstance(value, (list, np.ndarray)):
-            ref_dict[key] = ArrayInitializer(value)
+            value = ArrayInitializer(value)
+        new_dict[key] = value
+    return new_dict
-- 
2.43.0


From e6c9503bcbc9d1a6b1e8196d5a441c506e0615ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 22/46] fix: extract buffers from batches with different
 numbers of time steps

Minibatches cuts every batch to its longest sequence, on which extract and
extract_and_save failed. Shorter batches are now padded with zeros.
---
 brainstorm/tools.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/brainstorm/tools.py b/brainstorm/tools.py
index 2b00f63..a273ad6 100644
--- a/brainstorm/tools.py
+++ b/brainstorm/tools.py
@@ -116,8 +116,13 @@ def extract(network, iter, buffer_names):
             if first_pass:
                 data_shape = (data.shape[0], nr_examples) + data.shape[2:]
                 return_data[buffer_name] = np.zeros(data_shape, data.dtype)
-            return_data[buffer_name][:, nr_items - data.shape[1]:nr_items] = \
-                data
+            result = return_data[buffer_name]
+            if data.shape[0] > result.shape[0]:
+                padding = np.zeros((data.shape[0] - result.shape[0],) +
+                                   result.shape[1:], result.dtype)
+                result = np.concatenate([result, padding])
+                return_data[buffer_name] = result
+            result[:data.shape[0], nr_items - data.shape[1]:nr_items] = data
     return return_data
 
 
@@ -169,11 +174,14 @@ def extract_and_save(network, iter, buffer_names, file_name):
                 if first_pass:
                     ds.append(f.create_dataset(
                         buffer_name, data.shape, data.dtype, chunks=data.shape,
-                        maxshape=(data.shape[0], None) + data.shape[2:]))
+                        maxshape=(None, None) + data.shape[2:]))
                     ds[-1][:] = data
                 else:
                     ds[num].resize(size=nr_items, axis=1)
-                    ds[num][:, nr_items - data.shape[1]:nr_items, ...] = data
+                    if data.shape[0] > ds[num].shape[0]:
+                        ds[num].resize(size=data.shape[0], axis=0)
+                    ds[num][:data.shape[0],
+                            nr_items - data.shape[1]:nr_items, ...] = data
 
 
 def get_in_out_layers(task_type, in_shape, out_shape, data_name='default',
-- 
2.43.0


From 3547f074ec0494ac1923d42f4251f1862f0a32f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 23/46] fix: let BinomialCrossEntropy backpropagate
 multi-dimensional features

---
 brainstorm/layers/binomial_cross_entropy_layer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brainstorm/layers/binomial_cross_entropy_layer.py b/brainstorm/layers/binomial_cross_entropy_layer.py
index 30b6579..dd07e7a 100644
--- a/brainstorm/layers/binomial_cross_entropy_layer.py
+++ b/brainstorm/layers/binomial_cross_entropy_layer.py
@@ -110,7 +110,8 @@ class BinomialCrossEntropyLayerImpl(Layer):
 
         # ceed_sum has only one feature dimension due to summation,
         # so we broadcast to all feature dimensions
-        _h.broadcast_t(ceed_sum, 2, tmp)
+        _h.broadcast_t(flatten_time(ceed_sum), 1,
+                       flatten_time_and_features(tmp))
         _h.mult_tt(ceed, tmp, ceed)
 
         _h.add_tt(ceed, yd, yd)
-- 
2.43.0


From fc17ad021076e1dadef26a0eaa15efb262231494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:44 +0000
Subject: [PATCH 24/46] fix: refuse convolution kernels larger than the padded
 image

---
 brainstorm/layers/convolution_layer_2d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brainstorm/layers/convolution_layer_2d.py b/brainstorm/layers/convolution_layer_2d.py
index 533ef90..7578cdf 100644
--- a/brainstorm/layers/convolution_layer_2d.py
+++ b/brainstorm/layers/convolution_layer_2d.py
@@ -62,6 +62,9 @@ class Convolution2DLayerImpl(Layer):
                          stride[0]) + 1
         output_width = ((in_shape[1] + 2 * padding - kernel_y) //
                         stride[1]) + 1
+        assert output_height > 0 and output_width > 0, \
+            "Evaluated output height and width must be positive but were " \
+            "({}, {})".format(output_height, output_width)
         out_shape = (output_height, output_width, num_filters)
 
         outputs = OrderedDict()
-- 
2.43.0


From 1719f417cdec0bd8b078d810109ac0fbba180246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:00 +0000
Subject: [PATCH 25/46] fix: keep run-time state of hooks out of their
 descriptions

---
 brainstorm/hooks.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 227c120..455c6e0 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -109,7 +109,12 @@ class SaveBestNetwork(Hook):
             ...                                       filename='best_loss.h5',
         ...                                           criterion='min'))
     """
-    __undescribed__ = {'parameters': None}
+    __undescribed__ = {
+        'parameters': None,
+        'best_parameters': None,
+        'best_so_far': None,
+        'best_t': None
+    }
     __default_values__ = {'filename': None}
 
     def __init__(self, log_name, filename=None, criterion='max', name=None,
@@ -124,6 +129,9 @@ class SaveBestNetwork(Hook):
         self.best_t = None
         self.criterion = criterion
 
+    def __init_from_description__(self, description):
+        self.best_so_far = np.inf if self.criterion == 'min' else -np.inf
+
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
         if epoch_nr == 0:
             try:
@@ -365,6 +373,8 @@ class MonitorLoss(Hook):
     Monitor the losses computed by the network on a dataset using a given data
     iterator.
     """
+    __undescribed__ = {'iter': None}
+
     def __init__(self, iter_name, name=None, timescale='epoch', interval=1,
                  verbose=None):
         super(MonitorLoss, self).__init__(name, timescale, interval, verbose)
@@ -411,6 +421,8 @@ class MonitorScores(Hook):
         MonitorLoss: monitor the overall loss of the network.
 
     """
+    __undescribed__ = {'iter': None}
+
     def __init__(self, iter_name, scorers, name=None, timescale='epoch',
                  interval=1, verbose=None):
 
@@ -841,6 +853,8 @@ else:
 
 class ProgressBar(Hook):
     """ Adds a progress bar to show the training progress. """
+    __undescribed__ = {'length': None, 'bar': None}
+
     def __init__(self):
         super(ProgressBar, self).__init__(None, 'update', 1)
         self.length = None
-- 
2.43.0


From 83dca9c39d40357e526b929e834bdb34f3d4f7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:04 +0000
Subject: [PATCH 26/46] fix: keep the given weights of FreezeValues in its
 description

---
 brainstorm/value_modifiers.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/brainstorm/value_modifiers.py b/brainstorm/value_modifiers.py
index dc6aa7a..15d946e 100644
--- a/brainstorm/value_modifiers.py
+++ b/brainstorm/value_modifiers.py
@@ -163,21 +163,28 @@ class FreezeValues(ValueModifier):
     weights to affect.
     """
 
-    __undescribed__ = {'weights', 'device_weights'}
+    __undescribed__ = {'frozen_weights', 'device_weights'}
 
     def __init__(self, weights=None):
         super(FreezeValues, self).__init__()
         self.weights = weights
+        self.frozen_weights = weights
         self.device_weights = None
 
+    def __init_from_description__(self, description):
+        super(FreezeValues, self).__init_from_description__(description)
+        weights = description.get('weights')
+        self.weights = None if weights is None else np.array(weights)
+        self.frozen_weights = self.weights
+
     def __call__(self, handler, view):
-        if self.weights is None:
-            self.weights = handler.get_numpy_copy(view)
+        if self.frozen_weights is None:
+            self.frozen_weights = handler.get_numpy_copy(view)
 
         if (self.device_weights is None or
                 not isinstance(self.device_weights, handler.array_type)):
-            self.device_weights = handler.allocate(self.weights.shape)
-            handler.set_from_numpy(self.device_weights, self.weights)
+            self.device_weights = handler.allocate(self.frozen_weights.shape)
+            handler.set_from_numpy(self.device_weights, self.frozen_weights)
 
         handler.copy_to(self.device_weights, view)
 
-- 
2.43.0


From 7a1d45911f73dc9472b4fd9f9844027a9d555bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:13 +0000
Subject: [PATCH 27/46] fix: let EchoState refuse shapes of more than two
 dimensions

---
 brainstorm/initializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index 9f4e639..e7c3ec0 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -166,7 +166,7 @@ class EchoState(Initializer):
 
     def __call__(self, shape):
         self._assert_atleast2d(shape)
-        if shape[0] != shape[1]:
+        if len(shape) != 2 or shape[0] != shape[1]:
             raise InitializationError("Matrix should be square but was: {}"
                                       "".format(shape))
 
-- 
2.43.0


From 46c12592640efb8ea1f3b79bd9df62114c041eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:59 +0000
Subject: [PATCH 28/46] fix: announce the shapes that Pad, RandomCrop, OneHot
 and MultiHot yield

---
 brainstorm/data_iterators.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index b5f29e2..eaf14bd 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -217,6 +217,9 @@ class OneHot(DataIterator):
             shape = iter.data_shapes[key]
             if not (shape[-1] == 1 and len(shape) == 3):
                 raise IteratorValidationError("Only 3D data is supported")
+        self.data_shapes = dict(iter.data_shapes)
+        for key, size in vocab_size_dict.items():
+            self.data_shapes[key] = iter.data_shapes[key][:2] + (size,)
         self.vocab_size_dict = vocab_size_dict
         self.iter = iter
 
@@ -262,6 +265,9 @@ class MultiHot(DataIterator):
             shape = iter.data_shapes[key]
             if not len(shape) == 3:
                 raise IteratorValidationError("Only 3D data is supported")
+        self.data_shapes = dict(iter.data_shapes)
+        for key, size in vocab_size_dict.items():
+            self.data_shapes[key] = iter.data_shapes[key][:2] + (size,)
         self.vocab_size_dict = vocab_size_dict
         self.iter = iter
 
@@ -307,6 +313,10 @@ class Pad(DataIterator):
                     "}".format(key, iter.data_shapes.keys()))
             if len(iter.data_shapes[key]) != 5:
                 raise IteratorValidationError("Only 5D data is supported")
+        self.data_shapes = dict(iter.data_shapes)
+        for key, size in size_dict.items():
+            t, b, h, w, c = iter.data_shapes[key]
+            self.data_shapes[key] = (t, b, h + 2 * size, w + 2 * size, c)
         self.value_dict = {} if value_dict is None else value_dict
         self.size_dict = size_dict
         self.iter = iter
@@ -357,6 +367,10 @@ class RandomCrop(DataIterator):
                 raise IteratorValidationError("Invalid crop height")
             if val[1] > data_shape[3] or val[1] < 0:
                 raise IteratorValidationError("Invalid crop width")
+        self.data_shapes = dict(iter.data_shapes)
+        for key, val in shape_dict.items():
+            data_shape = iter.data_shapes[key]
+            self.data_shapes[key] = data_shape[:2] + val + data_shape[4:]
         self.shape_dict = shape_dict
         self.iter = iter
 
-- 
2.43.0


From 0a0d93df868222eb2301960808ffe296419a5987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:45 +0000
Subject: [PATCH 29/46] fix: keep all batches when a buffer is extracted under
 a repeated name

---
 brainstorm/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/tools.py b/brainstorm/tools.py
index a273ad6..62eb40a 100644
--- a/brainstorm/tools.py
+++ b/brainstorm/tools.py
@@ -108,7 +108,7 @@ def extract(network, iter, buffer_names):
     nr_items = 0
     for _ in run_network(network, iterator, all_inputs=False):
         network.forward_pass()
-        first_pass = False if len(return_data) == len(buffer_names) else True
+        first_pass = False if len(return_data) > 0 else True
         for num, buffer_name in enumerate(buffer_names):
             data = network.get(buffer_name)
             if num == 0:
-- 
2.43.0


From 5bfd808eb7c4f243131d23eb9131a758afea1f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:25 +0000
Subject: [PATCH 30/46] fix: clear inputs that are not provided after a change
 of batch size

---
 brainstorm/structure/network.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index f67a1d0..7c291c1 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -392,9 +392,14 @@ class Network(Seedable):
                 provided. Defaults to True.
         """
         time_size, batch_size = data[next(iter(data))].shape[: 2]
+        old_size = (self._buffer_manager.time_size,
+                    self._buffer_manager.batch_size)
         self.buffer = self._buffer_manager.resize(time_size, batch_size)
         for name, buf in self.buffer.Input.outputs.items():
             if name not in data.keys() and all_inputs is False:
+                if (time_size, batch_size) != old_size:
+                    # the resized buffer holds leftovers of other buffers
+                    self.handler.fill(buf, 0.0)
                 continue
             if isinstance(data[name], self.handler.array_type):
                 self.handler.copy_to(data[name], buf)
-- 
2.43.0


From d2c413ad86bd213716aee691ee9f08917ab54d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:53 +0000
Subject: [PATCH 31/46] fix: merge and split arrays that are not contiguous

merge_tt and split_add_tt wrote their result into a reshaped view of the
output, which is a copy that gets lost if the output is a part of a
larger array with more than two dimensions.
---
 brainstorm/handlers/numpy_handler.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/brainstorm/handlers/numpy_handler.py b/brainstorm/handlers/numpy_handler.py
index 7918baa..bfe3582 100644
--- a/brainstorm/handlers/numpy_handler.py
+++ b/brainstorm/handlers/numpy_handler.py
@@ -217,10 +217,10 @@ class NumpyHandler(Handler):
                                                    padding, stride, argmax)
 
     def merge_tt(self, a, b, out):
-        out_flat = out.reshape(-1, out.shape[-1])
-        sa = a.shape[-1]
-        out_flat[:, :sa] = a.reshape(-1, a.shape[-1])
-        out_flat[:, sa:] = b.reshape(-1, b.shape[-1])
+        # note: reshaping out might produce a copy if it is not contiguous
+        sa, sb = a.shape[-1], b.shape[-1]
+        out[..., :sa] = a.reshape(out.shape[:-1] + (sa,))
+        out[..., sa:] = b.reshape(out.shape[:-1] + (sb,))
 
     def modulo_tt(self, a, b, out):
         np.fmod(a, b, out)
@@ -247,11 +247,10 @@ class NumpyHandler(Handler):
         np.sign(a, out=out)
 
     def split_add_tt(self, x, out_a, out_b):
-        oa = out_a.reshape(-1, out_a.shape[-1])
-        ob = out_b.reshape(-1, out_b.shape[-1])
-        x_flat = x.reshape(-1, x.shape[-1])
-        oa[:] += x_flat[:, :oa.shape[-1]]
-        ob[:] += x_flat[:, oa.shape[-1]:]
+        # note: reshaping out_a or out_b might produce a copy
+        sa = out_a.shape[-1]
+        out_a[:] += x[..., :sa].reshape(out_a.shape)
+        out_b[:] += x[..., sa:].reshape(out_b.shape)
 
     def sqrt_t(self, a, out):
         np.sqrt(a, out)
-- 
2.43.0


From 5a7815a9a02a8217e2b7475bcee8715a4894ebc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:49 +0000
Subject: [PATCH 32/46] fix: refuse malformed layer specifications

create_net_from_spec silently skipped text it could not understand and
ignored superfluous arguments, sizes of zero and impossible dropout
probabilities.
---
 brainstorm/tools.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/brainstorm/tools.py b/brainstorm/tools.py
index 62eb40a..8e06b84 100644
--- a/brainstorm/tools.py
+++ b/brainstorm/tools.py
@@ -361,14 +361,19 @@ act_funcs = {
 }
 
 
+def get_size(args):
+    assert (len(args) == 1 and isinstance(args[0], int) and
+            args[0] > 0), "{}".format(args)
+    return args[0]
+
+
 def F(args):
     if args and args[0] in act_funcs:
         activation = act_funcs[args[0]]
         args = args[1:]
     else:
         activation = 'rel'
-    size = args[0]
-    assert isinstance(size, int), "{}".format(size)
+    size = get_size(args)
     return layers.FullyConnected(size, activation=activation)
 
 
@@ -379,7 +384,8 @@ def B(args):
 
 def D(args):
     if args:
-        assert isinstance(args[0], float), "{}".format(args[0])
+        assert len(args) == 1 and isinstance(args[0], float), "{}".format(args)
+        assert 0.0 <= args[0] < 1.0, "{}".format(args[0])
         return layers.Dropout(drop_prob=args[0])
     else:
         return layers.Dropout()
@@ -391,8 +397,7 @@ def R(args):
         args = args[1:]
     else:
         activation = 'tanh'
-    size = args[0]
-    assert isinstance(size, int), "{}".format(size)
+    size = get_size(args)
     return layers.Recurrent(size, activation=activation)
 
 
@@ -402,8 +407,7 @@ def L(args):
         args = args[1:]
     else:
         activation = 'tanh'
-    size = args[0]
-    assert isinstance(size, int), "{}".format(size)
+    size = get_size(args)
     return layers.Lstm(size, activation=activation)
 
 
@@ -415,8 +419,8 @@ def C(args):
         activation = 'rel'
 
     assert (len(args) >= 2 and
-            isinstance(args[0], int) and
-            isinstance(args[1], int)), '{}'.format(args)
+            isinstance(args[0], int) and args[0] > 0 and
+            isinstance(args[1], int) and args[1] > 0), '{}'.format(args)
     num_filters, kernel = args[:2]
     args = args[2:]
     padding = 0
@@ -446,7 +450,8 @@ def P(args):
         args = args[1:]
     else:
         pool = 'max'
-    assert args and isinstance(args[0], int), '{}'.format(args)
+    assert (args and isinstance(args[0], int) and
+            args[0] > 0), '{}'.format(args)
     kernel = args[0]
     args = args[1:]
     padding = 0
@@ -583,6 +588,11 @@ def create_net_from_spec(task_type, in_shape, out_shape, spec,
 
     # spec = re.sub(r'\s', '', spec)  # remove whitespace
 
+    unknown = re.sub(ARCH_SPEC, '', spec).strip()
+    if unknown:
+        raise ValueError('Malformed spec "{}": could not understand "{}"'
+                         .format(spec, unknown))
+
     current_layer = inp
     for m in re.finditer(ARCH_SPEC, spec):
         layer_type = m.group('layer_type')
-- 
2.43.0


From bddf8adba829795d2e85a44247dc23f7ae10351a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:39 +0000
Subject: [PATCH 33/46] fix: ignore whitespace everywhere in layer
 specifications

As documented: 'F 5 0' used to be a layer of size 5 and 'D . 2' a Dropout
with the default probability.
---
 brainstorm/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brainstorm/tools.py b/brainstorm/tools.py
index 8e06b84..9fda1a0 100644
--- a/brainstorm/tools.py
+++ b/brainstorm/tools.py
@@ -580,13 +580,13 @@ def create_net_from_spec(task_type, in_shape, out_shape, spec,
     output_name = 'Output.outputs.predictions'
 
     import re
-    LAYER_TYPE = r'\s*(?P<layer_type>[A-Z]+)\s*'
+    LAYER_TYPE = r'\s*(?P<layer_type>[A-Z])\s*'
     FLOAT = r'\s*[-+]?[0-9]*\.?[0-9]+\s*'
     ARG = r'\s*([a-z]|{float})\s*[:/|]?\s*'.format(float=FLOAT)
     ARG_LIST = r'(?P<args>({arg})*)'.format(arg=ARG)
     ARCH_SPEC = r'({type}{args})'.format(type=LAYER_TYPE, args=ARG_LIST)
 
-    # spec = re.sub(r'\s', '', spec)  # remove whitespace
+    spec = re.sub(r'\s', '', spec)  # remove whitespace
 
     unknown = re.sub(ARCH_SPEC, '', spec).strip()
     if unknown:
-- 
2.43.0


From f8e334db4f34c23779e67e2845862c75fe48a587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:10 +0000
Subject: [PATCH 34/46] fix: connect the named input data in
 create_net_from_spec

With a data_name other than 'default' the first layer was connected to an
output that does not exist.
---
 brainstorm/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/tools.py b/brainstorm/tools.py
index 9fda1a0..4cdde0c 100644
--- a/brainstorm/tools.py
+++ b/brainstorm/tools.py
@@ -593,7 +593,7 @@ def create_net_from_spec(task_type, in_shape, out_shape, spec,
         raise ValueError('Malformed spec "{}": could not understand "{}"'
                          .format(spec, unknown))
 
-    current_layer = inp
+    current_layer = inp - data_name
     for m in re.finditer(ARCH_SPEC, spec):
         layer_type = m.group('layer_type')
         args = re.split(ARG, m.group('args'))[1::2]
-- 
2.43.0


From 8b211a25903ae484ba8a81dd53ea00078180d85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:35 +0000
Subject: [PATCH 35/46] fix: respect the limits of Exponential schedules after
 an overflow

factor ** count raised an OverflowError long after the limit had been
reached, which ended the training.
---
 brainstorm/training/schedules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brainstorm/training/schedules.py b/brainstorm/training/schedules.py
index 31e70af..fdd9a37 100644
--- a/brainstorm/training/schedules.py
+++ b/brainstorm/training/schedules.py
@@ -103,7 +103,9 @@ class Exponential(Describable):
     def __call__(self, epoch_nr, update_nr, timescale, interval,
                  net, stepper, logs):
         current = epoch_nr if timescale == 'epoch' else update_nr
-        new_value = self.initial_value * (self.factor ** (current // interval))
+        with np.errstate(over='ignore'):  # limits apply to overflows, too
+            factor = float(np.power(float(self.factor), current // interval))
+        new_value = self.initial_value * factor
         new_value = min(self.maximum, max(self.minimum, new_value))
         return new_value
 
-- 
2.43.0


From 6ef2235e0c89abb2fa64d65124e0bd167e968784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:17 +0000
Subject: [PATCH 36/46] fix: monitor the norm of whole filters in
 MonitorLayerParameters

---
 brainstorm/hooks.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 455c6e0..28efa07 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -360,10 +360,11 @@ class MonitorLayerParameters(Hook):
             log[key]['avg'] = v.mean()
             log[key]['max'] = v.max()
             if len(v.shape) > 1:
-                log[key]['min_L2_norm'] = np.sqrt(np.sum(v ** 2, axis=1)).min()
-                log[key]['avg_L2_norm'] = np.sqrt(np.sum(v ** 2,
-                                                         axis=1)).mean()
-                log[key]['max_L2_norm'] = np.sqrt(np.sum(v ** 2, axis=1)).max()
+                # norm of all the weights of every unit or filter
+                norms = np.sqrt(np.sum(v.reshape(v.shape[0], -1) ** 2, axis=1))
+                log[key]['min_L2_norm'] = norms.min()
+                log[key]['avg_L2_norm'] = norms.mean()
+                log[key]['max_L2_norm'] = norms.max()
 
         return log
 
-- 
2.43.0


From 31c4a06069a5ce4f28643a464ea2b4f11ce87ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:14 +0000
Subject: [PATCH 37/46] fix: keep working with buffer names like 'items',
 refuse 'parameters' and 'gradients'

A layer with such a name replaced a method of the view (TypeError when the
network is used or resized) or the vector of all parameters or gradients.
---
 brainstorm/structure/buffer_views.py | 17 ++++++++++++-----
 brainstorm/utils.py                  |  2 +-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/brainstorm/structure/buffer_views.py b/brainstorm/structure/buffer_views.py
index dfc17d2..828bfca 100644
--- a/brainstorm/structure/buffer_views.py
+++ b/brainstorm/structure/buffer_views.py
@@ -14,17 +14,24 @@ class BufferView(list):
         self._full_buffer = full_buffer
         self._buffer_names = tuple(buffer_names)
         self._keys = set(buffer_names)
-        for i, n in enumerate(buffer_names):
-            self.__dict__[n] = self[i]
+        self._update_attributes()
 
     def adjust(self, buffer_names, buffers, full_buffer=None):
         assert self._buffer_names == tuple(buffer_names)
         self._full_buffer = full_buffer
-        for i, (n, b) in enumerate(zip(buffer_names, buffers)):
+        for i, b in enumerate(buffers):
             self[i] = b
-            self.__dict__[n] = self[i]
+        self._update_attributes()
         return self
 
+    def _update_attributes(self):
+        # names like 'items' or '_keys' must not hide what the view itself
+        # needs, so those are only available by index or item access
+        reserved = set(BufferView.__dict__) | {'_full_buffer', '_keys',
+                                               '_buffer_names'}
+        for n in self._keys - reserved:
+            self.__dict__[n] = self[n]
+
     def _asdict(self):
         return dict(zip(self._buffer_names, self))
 
@@ -41,7 +48,7 @@ class BufferView(list):
         if isinstance(item, int):
             return super(BufferView, self).__getitem__(item)
         if item in self._keys:
-            return self.__dict__[item]
+            return self[self._buffer_names.index(item)]
         elif '.' in item:
             return get_by_path(self, item)
 
diff --git a/brainstorm/utils.py b/brainstorm/utils.py
index 375f72c..8880e8e 100644
--- a/brainstorm/utils.py
+++ b/brainstorm/utils.py
@@ -16,7 +16,7 @@ product = lambda arr: reduce(operator.mul, arr, 1)
 
 PYTHON_IDENTIFIER = re.compile("^[_a-zA-Z][_a-zA-Z0-9]*$")
 
-NAME_BLACKLIST = {'default', 'fallback'}
+NAME_BLACKLIST = {'default', 'fallback', 'parameters', 'gradients'}
 
 
 def is_valid_layer_name(identifier):
-- 
2.43.0


From e074f43bd30cbb243cdab8dc90e0c3bf0e09831b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:30 +0000
Subject: [PATCH 38/46] fix: raise KeyError for paths that go on below an array

Network.get documents KeyError when there is no buffer for the given path.
---
 brainstorm/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brainstorm/utils.py b/brainstorm/utils.py
index 8880e8e..cfe613d 100644
--- a/brainstorm/utils.py
+++ b/brainstorm/utils.py
@@ -127,6 +127,9 @@ def get_by_path(d, path):
                 'Path "{}" could not be resolved. Key "{}" missing. Available '
                 'keys are: [{}]'.format(
                     path, p, ", ".join(sorted(current_node.keys()))))
+        except (IndexError, TypeError):
+            raise KeyError('Path "{}" could not be resolved. There is nothing '
+                           'to look up "{}" in.'.format(path, p))
     return current_node
 
 
-- 
2.43.0


From 0767bb71a28ce1d5c47151814d3a018c39bb0c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:43 +0000
Subject: [PATCH 39/46] fix: run layers without inputs that are ordered before
 the Input layer

Passes skipped the first layer instead of the Input layer.
---
 brainstorm/structure/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index 7c291c1..35a6a71 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -431,7 +431,7 @@ class Network(Seedable):
             self._buffer_manager.clear_context()
         else:
             self._buffer_manager.apply_context(context)
-        for layer_name, layer in list(self.layers.items())[1:]:
+        for layer_name, layer in self.layers.items():
             layer.forward_pass(self.buffer[layer_name], training_pass)
 
     def backward_pass(self):
@@ -445,7 +445,7 @@ class Network(Seedable):
             a forward pass. So you have to always run a forward_pass first.
         """
         self._buffer_manager.clear_backward_buffers()
-        for layer_name, layer in reversed(list(self.layers.items())[1:]):
+        for layer_name, layer in reversed(list(self.layers.items())):
             layer.backward_pass(self.buffer[layer_name])
         self.apply_gradient_modifiers()
 
-- 
2.43.0


From 27d67f67a94895f40e83a6711513c08e7a247b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:45 +0000
Subject: [PATCH 40/46] fix: hand out the whole context after passes shorter
 than the context

With a context size above one, get_context failed after a pass over fewer time
steps than that.
---
 brainstorm/structure/buffers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/brainstorm/structure/buffers.py b/brainstorm/structure/buffers.py
index e3d219b..eed55cc 100644
--- a/brainstorm/structure/buffers.py
+++ b/brainstorm/structure/buffers.py
@@ -120,11 +120,10 @@ class BufferManager(object):
                 c = self.handler.zeros(
                     (hub.context_size, self.batch_size, hub.size))
 
-                context_start_idx = self.time_size - hub.context_size
-                context_stop_idx = self.time_size
-
-                self.handler.copy_to(buf[context_start_idx:context_stop_idx],
-                                     c)
+                # negative indices are the rows of the previous context
+                for i in range(hub.context_size):
+                    self.handler.copy_to(
+                        buf[self.time_size - hub.context_size + i], c[i])
                 context.append(c)
 
         return context
-- 
2.43.0


From c8fac3e7d6997f02c7093cea5a658b2d5fb8c1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 41/46] fix: ProgressBar forgets the bar of an earlier training

At the call before training the finished bar was continued, which raised
StopIteration, so the trainer took it for a stopping signal and trained
nothing.
---
 brainstorm/hooks.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 28efa07..38ab6ae 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -864,6 +864,7 @@ class ProgressBar(Hook):
     def start(self, net, stepper, verbose, named_data_iters):
         assert 'training_data_iter' in named_data_iters
         self.length = named_data_iters['training_data_iter'].length
+        self.bar = None
 
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
         assert epoch_nr == 0 or math.ceil(update_nr / self.length) == epoch_nr
-- 
2.43.0


From 3a209ec14249080e655e982534be5607355f58ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:36 +0000
Subject: [PATCH 42/46] fix: load networks that were never initialized

Creating a network from its description initialized it with an empty
description, which fails for every network with parameters.
---
 brainstorm/structure/network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index 35a6a71..56dcde9 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -70,7 +70,9 @@ class Network(Seedable):
     def __new_from_description__(cls, description):
         net = Network.from_architecture(description['architecture'])
         net.set_handler(create_from_description(description['handler']))
-        net.initialize(create_from_description(description['initializers']))
+        if description['initializers']:
+            net.initialize(
+                create_from_description(description['initializers']))
         net.set_gradient_modifiers(
             create_from_description(description['gradient_modifiers']))
         net.set_weight_modifiers(
-- 
2.43.0


From 61978e3769f9779f71350fbd408733df4ecbd462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:57 +0000
Subject: [PATCH 43/46] fix: ProgressBar counts the updates of the current
 training

---
 brainstorm/hooks.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 38ab6ae..f211d71 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -2,7 +2,6 @@
 # coding=utf-8
 from __future__ import division, print_function, unicode_literals
 
-import math
 import signal
 import sys
 from collections import OrderedDict
@@ -854,20 +853,25 @@ else:
 
 class ProgressBar(Hook):
     """ Adds a progress bar to show the training progress. """
-    __undescribed__ = {'length': None, 'bar': None}
+    __undescribed__ = {'length': None, 'bar': None, 'first_update': None}
 
     def __init__(self):
         super(ProgressBar, self).__init__(None, 'update', 1)
         self.length = None
         self.bar = None
+        self.first_update = None
 
     def start(self, net, stepper, verbose, named_data_iters):
         assert 'training_data_iter' in named_data_iters
         self.length = named_data_iters['training_data_iter'].length
         self.bar = None
+        self.first_update = None
 
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
-        assert epoch_nr == 0 or math.ceil(update_nr / self.length) == epoch_nr
+        if self.first_update is None:
+            # called before the training, which may continue an earlier one
+            self.first_update = update_nr
+        update_nr -= self.first_update
         if update_nr % self.length == 1:
             self.bar = progress_bar(self.length)
             print(next(self.bar), end='')
-- 
2.43.0


From 4fb773f390b12e7fef882d6fc5e8983f6656ee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:58 +0000
Subject: [PATCH 44/46] fix: describe objects with array attributes that have a
 default value

---
 brainstorm/describable.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/brainstorm/describable.py b/brainstorm/describable.py
index a31a0ae..57b2a2c 100644
--- a/brainstorm/describable.py
+++ b/brainstorm/describable.py
@@ -78,7 +78,7 @@ class Describable(object):
         for member, value in self.__dict__.items():
             if member in ignorelist:
                 continue
-            if member in defaultlist and defaultlist[member] == value:
+            if member in defaultlist and _is_equal(defaultlist[member], value):
                 continue
             try:
                 description[member] = get_description(value)
@@ -238,3 +238,9 @@ def _traverse_ancestor_attrs(cls, attr_name):
     for c in reversed(cls.__mro__):
         if hasattr(c, attr_name):
             yield getattr(c, attr_name)
+
+
+def _is_equal(a, b):
+    # arrays are described as lists (and == does not compare them as a whole)
+    a, b = [v.tolist() if isinstance(v, np.ndarray) else v for v in (a, b)]
+    return a == b
-- 
2.43.0


From 946beffa80faee033b34cab172b98de9403f16c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:57 +0000
Subject: [PATCH 45/46] fix: apply overlapping modifiers in a reproducible
 order

---
 brainstorm/structure/view_references.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/brainstorm/structure/view_references.py b/brainstorm/structure/view_references.py
index b7a26b3..0124bb5 100644
--- a/brainstorm/structure/view_references.py
+++ b/brainstorm/structure/view_references.py
@@ -2,10 +2,12 @@
 # coding=utf-8
 from __future__ import division, print_function, unicode_literals
 
+import json
 import re
 from collections import namedtuple
 from copy import deepcopy
 
+from brainstorm.describable import get_description
 from brainstorm.structure.buffer_views import BufferView
 from brainstorm.utils import NetworkValidationError, is_valid_layer_name
 
@@ -180,13 +182,21 @@ def copy_modifier_for(modifier, layer_name, view_name):
     return copied_mod
 
 
+def modifier_sort_key(modifier):
+    try:
+        return json.dumps(get_description(modifier), sort_keys=True)
+    except TypeError:  # not describable
+        return repr(modifier)
+
+
 def order_and_copy_modifiers(view_refs):
     list_view_refs = {}
     for layer_name, views in view_refs.items():
         layer_refs = {}
         for view_name, setofmodifiers in views.items():
             l = []
-            for mod in setofmodifiers:
+            # the order of a set differs from run to run
+            for mod in sorted(setofmodifiers, key=modifier_sort_key):
                 if isinstance(mod, (list, tuple)):
                     l.extend([copy_modifier_for(m, layer_name, view_name)
                               for m in mod])
-- 
2.43.0


From 7f9e3debfb4c8b560f42775295c815f09e0b3aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:22 +0000
Subject: [PATCH 46/46] fix: refuse data whose shape does not fit the network

Arrays that numpy can broadcast (e.g. targets with one feature for a network
with several) were silently repeated by provide_external_data.
---
 brainstorm/structure/network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index 56dcde9..15c95e8 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -403,6 +403,9 @@ class Network(Seedable):
                     # the resized buffer holds leftovers of other buffers
                     self.handler.fill(buf, 0.0)
                 continue
+            if tuple(data[name].shape) != tuple(buf.shape):
+                raise ValueError('The shape of "{}" should be {}, but was {}'
+                                 .format(name, buf.shape, data[name].shape))
             if isinstance(data[name], self.handler.array_type):
                 self.handler.copy_to(data[name], buf)
             else:
-- 
2.43.0

