From 2b5cebe7fb08956c8d232c8cc2f93312c2353c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:09 +0000
Subject: [PATCH 01/22] fix: clear_context must only clear the context rows

It also zeroed the last context_size regular time steps, which wiped input
data whenever the Input layer shares a buffer hub with a recurrent output.
---
 brainstorm/structure/buffers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/structure/buffers.py b/brainstorm/structure/buffers.py
index ec773ea..9e5dc1a 100644
--- a/brainstorm/structure/buffers.py
+++ b/brainstorm/structure/buffers.py
@@ -142,7 +142,7 @@ class BufferManager(object):
             if hub.btype != 2 or not hub.context_size:
                 continue
             self.handler.fill(
-                buf[self.time_size - hub.context_size:], 0.)
+                buf[self.time_size:], 0.)
 
     def clear_backward_buffers(self):
         for h, b in zip(self.hubs, self.buffers):
-- 
2.43.0


From 39e1de71eaa291d6666f1687b1852374091373db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:09 +0000
Subject: [PATCH 02/22] fix: Dropout backward pass must apply the
 1/(1-drop_prob) scaling

The forward pass scales the kept activations, the backward pass did not.
---
 brainstorm/layers/dropout_layer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/brainstorm/layers/dropout_layer.py b/brainstorm/layers/dropout_layer.py
index 88c0116..e13c389 100644
--- a/brainstorm/layers/dropout_layer.py
+++ b/brainstorm/layers/dropout_layer.py
@@ -47,6 +47,8 @@ class DropoutLayerImpl(Layer):
             _h.copy_to(buffers.inputs.default, buffers.outputs.default)
 
     def backward_pass(self, buffers):
-        self.handler.mult_add_tt(buffers.output_deltas.default,
-                                 buffers.internals.mask,
-                                 buffers.input_deltas.default)
+        _h = self.handler
+        tmp = _h.allocate(buffers.internals.mask.shape)
+        _h.mult_st(1 / (1 - self.drop_prob), buffers.internals.mask, out=tmp)
+        _h.mult_add_tt(buffers.output_deltas.default, tmp,
+                       buffers.input_deltas.default)
-- 
2.43.0


From a03b19ea938873c6e90775f09b01e23a4487ce37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:09 +0000
Subject: [PATCH 03/22] fix: LSTM gradients at the first time step must use the
 initial state

The recurrent and peephole gradients of the first step used the delta buffers
instead of the state handed in as context (and the forget peephole used the
input gate deltas), so they were wrong for a non-zero initial state.
---
 brainstorm/layers/clockwork_lstm_layer.py | 12 ++++++------
 brainstorm/layers/lstm_layer.py           | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/brainstorm/layers/clockwork_lstm_layer.py b/brainstorm/layers/clockwork_lstm_layer.py
index 37819c8..d40da00 100644
--- a/brainstorm/layers/clockwork_lstm_layer.py
+++ b/brainstorm/layers/clockwork_lstm_layer.py
@@ -303,10 +303,10 @@ class ClockworkLstmLayerImpl(Layer):
         _h.dot_add_mm(flat_dOa, flat_outputs, dRo, transa=True)
         _h.dot_add_mm(flat_dZa, flat_outputs, dRz, transa=True)
 
-        _h.dot_add_mm(dIa[0], dy[-1], dRi, transa=True)
-        _h.dot_add_mm(dFa[0], dy[-1], dRf, transa=True)
-        _h.dot_add_mm(dOa[0], dy[-1], dRo, transa=True)
-        _h.dot_add_mm(dZa[0], dy[-1], dRz, transa=True)
+        _h.dot_add_mm(dIa[0], y[-1], dRi, transa=True)
+        _h.dot_add_mm(dFa[0], y[-1], dRf, transa=True)
+        _h.dot_add_mm(dOa[0], y[-1], dRo, transa=True)
+        _h.dot_add_mm(dZa[0], y[-1], dRz, transa=True)
 
         # Other Peephole connections
         dWcif_tmp = _h.allocate(flat_cell.shape)
@@ -318,9 +318,9 @@ class ClockworkLstmLayerImpl(Layer):
         _h.add_tt(dpf, dWc_tmp, dpf)
 
         dWcif_tmp = _h.allocate(dIa[0].shape)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dIa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpi, dWc_tmp, dpi)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dFa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpf, dWc_tmp, dpf)
diff --git a/brainstorm/layers/lstm_layer.py b/brainstorm/layers/lstm_layer.py
index 8433706..972903c 100644
--- a/brainstorm/layers/lstm_layer.py
+++ b/brainstorm/layers/lstm_layer.py
@@ -255,10 +255,10 @@ class LstmLayerImpl(Layer):
         _h.dot_add_mm(flat_dOa, flat_outputs, dRo, transa=True)
         _h.dot_add_mm(flat_dZa, flat_outputs, dRz, transa=True)
 
-        _h.dot_add_mm(dIa[0], dy[-1], dRi, transa=True)
-        _h.dot_add_mm(dFa[0], dy[-1], dRf, transa=True)
-        _h.dot_add_mm(dOa[0], dy[-1], dRo, transa=True)
-        _h.dot_add_mm(dZa[0], dy[-1], dRz, transa=True)
+        _h.dot_add_mm(dIa[0], y[-1], dRi, transa=True)
+        _h.dot_add_mm(dFa[0], y[-1], dRf, transa=True)
+        _h.dot_add_mm(dOa[0], y[-1], dRo, transa=True)
+        _h.dot_add_mm(dZa[0], y[-1], dRz, transa=True)
 
         # Other Peephole connections
         dWcif_tmp = _h.allocate(flat_cell.shape)
@@ -270,9 +270,9 @@ class LstmLayerImpl(Layer):
         _h.add_tt(dpf, dWc_tmp, dpf)
 
         dWcif_tmp = _h.allocate(dIa[0].shape)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dIa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpi, dWc_tmp, dpi)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dFa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpf, dWc_tmp, dpf)
-- 
2.43.0


From b337d564493c556313a16854cbd6e8a0ead2973e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:09 +0000
Subject: [PATCH 04/22] fix: load networks with h5py 3

Dataset.value has been removed from h5py, so no saved network could be loaded.
---
 brainstorm/structure/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index a0f4dbf..88d39b5 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -95,10 +95,10 @@ class Network(Seedable):
             :meth:`.save_as_hdf5`
         """
         with h5py.File(filename, 'r') as f:
-            description = json.loads(f['description'].value.decode())
+            description = json.loads(f['description'][()].decode())
             net = create_from_description(description)
             net.handler.set_from_numpy(net.buffer.parameters,
-                                       f['parameters'].value)
+                                       f['parameters'][()])
         return net
 
     def __init__(self, layers, buffer_manager, architecture, seed=None,
-- 
2.43.0


From 9a0c9a220dcb536d36cad5bb35b5783b34715f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:09 +0000
Subject: [PATCH 05/22] fix: Uniform re-created from its description has no
 random state

Its __init_from_description__ did not call the one of Seedable, so calling it
(e.g. when loading a network) failed.
---
 brainstorm/initializers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index 7001f56..f3898e3 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -382,9 +382,13 @@ class Uniform(Initializer):
         super(Uniform, self).__init__()
         self.low = low
         self.high = high
-        self.__init_from_description__(None)
+        self._set_interval()
 
     def __init_from_description__(self, description):
+        super(Uniform, self).__init_from_description__(description)
+        self._set_interval()
+
+    def _set_interval(self):
         if self.high is None:
             self.low, self.high = sorted([-self.low, self.low])
         assert self.low < self.high, \
-- 
2.43.0


From 7116212d71e0450ab1a373ecbe67af05784a2cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:09 +0000
Subject: [PATCH 06/22] fix: MaskValues re-created from its description must
 hold an array

The mask came back as a list, so the modifier of a loaded network failed.
---
 brainstorm/value_modifiers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/brainstorm/value_modifiers.py b/brainstorm/value_modifiers.py
index 0f91e75..dc6aa7a 100644
--- a/brainstorm/value_modifiers.py
+++ b/brainstorm/value_modifiers.py
@@ -137,6 +137,10 @@ class MaskValues(ValueModifier):
         self.mask = mask
         self.device_mask = None
 
+    def __init_from_description__(self, description):
+        super(MaskValues, self).__init_from_description__(description)
+        self.mask = np.array(self.mask)
+
     def __call__(self, handler, view):
         if (self.device_mask is None or
                 not isinstance(self.device_mask, handler.array_type)):
-- 
2.43.0


From b536d5d82c0a602a61ffc5e325948889d142828d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:09 +0000
Subject: [PATCH 07/22] fix: Undivided must not hand out its own data
 dictionary

Wrapping iterators replace entries of the yielded dictionary, so e.g. noise
accumulated over epochs and padding or one-hot conversion failed on the second.
---
 brainstorm/data_iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index aef02db..530d128 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -394,7 +394,7 @@ class Undivided(DataIterator):
         self.total_size = int(sum(d.size for d in self.data.values()))
 
     def __call__(self, handler=None):
-        yield self.data
+        yield dict(self.data)
 
 
 class Minibatches(DataIterator):
-- 
2.43.0


From 382b46ec13307c6800a4cc39fac0a3f20e66ba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:09 +0000
Subject: [PATCH 08/22] fix: Flip must not flip the images of the underlying
 data set

Minibatches yields views, so flipping in place changed the data set.
---
 brainstorm/data_iterators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 530d128..245d2cc 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -179,6 +179,7 @@ class Flip(DataIterator):
         for data in self.iter(handler):
             for name in self.prob_dict.keys():
                 assert isinstance(data[name], np.ndarray)
+                data[name] = data[name].copy()
                 for i in range(data[name].shape[1]):
                     if self.rnd.random_sample() < self.prob_dict[name]:
                         data[name][:, i, ...] = data[name][:, i, :, ::-1, :]
-- 
2.43.0


From 832fd5beb438c59ff3533b2d66f8f9caf4d4b909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:09 +0000
Subject: [PATCH 09/22] fix: Pad must support a padding size of 0

---
 brainstorm/data_iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 245d2cc..6b0841d 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -319,7 +319,7 @@ class Pad(DataIterator):
                 size = self.size_dict[name]
                 val = self.value_dict.get(name, 0.0)
                 new_data = val * np.ones((t, b, h + 2 * size, w + 2 * size, c))
-                new_data[:, :, size: -size, size: -size, :] = data[name]
+                new_data[:, :, size: size + h, size: size + w, :] = data[name]
                 data[name] = new_data
             yield data
 
-- 
2.43.0


From 7f446a6b6267c6378cb8fe138acc0c98d599a7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:09 +0000
Subject: [PATCH 10/22] fix: seed the sub-initializer of SparseInputs and
 SparseOutputs

Without it initializing a network with a given seed was not reproducible.
---
 brainstorm/initializers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index f3898e3..effcf9a 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -334,7 +334,8 @@ class SparseInputs(Initializer):
             raise InitializationError("Input dimension to small: {} < {}"
                                       "".format(shape[0], self.connections))
 
-        sub_result = evaluate_initializer(self.sub_initializer, shape)
+        sub_result = evaluate_initializer(
+            self.sub_initializer, shape, seed=self.rnd.generate_seed())
         connection_mask = np.zeros(shape)
         connection_mask[:self.connections, :] = 1.
         for i in range(shape[1]):
@@ -363,7 +364,8 @@ class SparseOutputs(Initializer):
         if shape[1] < self.connections:
             raise InitializationError("Output dimension to small: {} < {}"
                                       "".format(shape[1], self.connections))
-        sub_result = evaluate_initializer(self.sub_initializer, shape)
+        sub_result = evaluate_initializer(
+            self.sub_initializer, shape, seed=self.rnd.generate_seed())
         connection_mask = np.zeros(shape)
         connection_mask[:, :self.connections] = 1.
         for i in range(shape[0]):
-- 
2.43.0


From 5c7b7ccee2982ad62f917daf533998a724aedb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:09 +0000
Subject: [PATCH 11/22] fix: do not modify the dictionary passed to initialize
 / set_*_modifiers

Keyword arguments were merged into the dictionary of the caller, so repeating
the same call failed because of conflicting values.
---
 brainstorm/structure/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index 88d39b5..ed6fdf9 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -545,7 +545,7 @@ def _update_references_with_dict(refs, ref_dict):
     if refs is None:
         references = dict()
     elif isinstance(refs, dict):
-        references = refs
+        references = dict(refs)
     else:
         references = {'default': refs}
 
-- 
2.43.0


From e89629eb4402a376f3c1d4ad46cb7a6794e5d76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:34 +0000
Subject: [PATCH 12/22] fix: do not write layer outputs and deltas through
 reshaped copies

With more than one feature dimension, a buffer that shares its hub with others
cannot be flattened without copying, so what BatchNorm, SoftmaxCE, Mask and
Merge wrote through the flattened array was lost (e.g. all outputs 0 when two
such layers feed the same sink).
---
 brainstorm/handlers/numpy_handler.py           | 13 +++++--------
 brainstorm/layers/batch_normalization_layer.py |  8 +++++---
 brainstorm/layers/mask_layer.py                | 10 ++++++----
 brainstorm/layers/softmax_ce_layer.py          | 10 +++++-----
 4 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/brainstorm/handlers/numpy_handler.py b/brainstorm/handlers/numpy_handler.py
index 64a344f..5524656 100644
--- a/brainstorm/handlers/numpy_handler.py
+++ b/brainstorm/handlers/numpy_handler.py
@@ -219,10 +219,9 @@ class NumpyHandler(Handler):
                                                    padding, stride, argmax)
 
     def merge_tt(self, a, b, out):
-        out_flat = out.reshape(-1, out.shape[-1])
         sa = a.shape[-1]
-        out_flat[:, :sa] = a.reshape(-1, a.shape[-1])
-        out_flat[:, sa:] = b.reshape(-1, b.shape[-1])
+        out[..., :sa] = a
+        out[..., sa:] = b
 
     def modulo_tt(self, a, b, out):
         np.fmod(a, b, out)
@@ -249,11 +248,9 @@ class NumpyHandler(Handler):
         np.sign(a, out=out)
 
     def split_add_tt(self, x, out_a, out_b):
-        oa = out_a.reshape(-1, out_a.shape[-1])
-        ob = out_b.reshape(-1, out_b.shape[-1])
-        x_flat = x.reshape(-1, x.shape[-1])
-        oa[:] += x_flat[:, :oa.shape[-1]]
-        ob[:] += x_flat[:, oa.shape[-1]:]
+        sa = out_a.shape[-1]
+        out_a[:] += x[..., :sa]
+        out_b[:] += x[..., sa:]
 
     def sqrt_t(self, a, out):
         np.sqrt(a, out)
diff --git a/brainstorm/layers/batch_normalization_layer.py b/brainstorm/layers/batch_normalization_layer.py
index 0092f79..e60f070 100644
--- a/brainstorm/layers/batch_normalization_layer.py
+++ b/brainstorm/layers/batch_normalization_layer.py
@@ -59,7 +59,7 @@ class BatchNormLayerImpl(Layer):
         inputs = flatten_all_but_last(buffers.inputs.default)
         centered = flatten_all_but_last(centered)
         x_hat = flatten_all_but_last(x_hat)
-        out = flatten_all_but_last(buffers.outputs.default)
+        out = _h.allocate(x_hat.shape)
         m = inputs.shape[0]
 
         if training_pass:
@@ -103,6 +103,8 @@ class BatchNormLayerImpl(Layer):
         # Compute outputs
         _h.mult_mv(x_hat, gamma.reshape((1, gamma.size)), out)
         _h.add_mv(out, beta.reshape((1, beta.size)), out)
+        _h.copy_to(out.reshape(buffers.outputs.default.shape),
+                   buffers.outputs.default)
 
     def backward_pass(self, buffers):
         _h = self.handler
@@ -113,7 +115,7 @@ class BatchNormLayerImpl(Layer):
         # Note: we flatten time for all buffers, so we skip the flat_ prefix
         x_hat = flatten_all_but_last(x_hat)
         outdeltas = flatten_all_but_last(buffers.output_deltas.default)
-        indeltas = flatten_all_but_last(buffers.input_deltas.default)
+        indeltas = buffers.input_deltas.default
         m = outdeltas.shape[0]
 
         big_tmp = _h.allocate(x_hat.shape)     # big
@@ -149,4 +151,4 @@ class BatchNormLayerImpl(Layer):
 
         term4 = big_tmp
         _h.mult_mv(term3, coeff.reshape((1, coeff.size)), term4)
-        _h.add_tt(term4, indeltas, indeltas)
+        _h.add_tt(term4.reshape(indeltas.shape), indeltas, indeltas)
diff --git a/brainstorm/layers/mask_layer.py b/brainstorm/layers/mask_layer.py
index ae2c56f..0c275fc 100644
--- a/brainstorm/layers/mask_layer.py
+++ b/brainstorm/layers/mask_layer.py
@@ -51,9 +51,11 @@ class MaskLayerImpl(Layer):
 
         flat_inp = self.flatten_buffer(buffers.inputs.default)
         flat_mask = self.flatten_buffer(buffers.inputs.mask)
-        flat_out = self.flatten_buffer(buffers.outputs.default)
+        tmp = _h.allocate(flat_inp.shape)
 
-        _h.mult_mv(flat_inp, flat_mask, out=flat_out)
+        _h.mult_mv(flat_inp, flat_mask, tmp)
+        _h.copy_to(tmp.reshape(buffers.outputs.default.shape),
+                   buffers.outputs.default)
 
     def backward_pass(self, buffers):
         _h = self.handler
@@ -61,7 +63,7 @@ class MaskLayerImpl(Layer):
         flat_out_deltas = self.flatten_buffer(buffers.output_deltas.default)
         tmp = self.handler.allocate(flat_out_deltas.shape)
         flat_mask = self.flatten_buffer(buffers.inputs.mask)
-        flat_in_deltas = self.flatten_buffer(buffers.input_deltas.default)
+        in_deltas = buffers.input_deltas.default
 
         _h.mult_mv(flat_out_deltas, flat_mask, tmp)
-        _h.add_tt(tmp, flat_in_deltas, flat_in_deltas)
+        _h.add_tt(tmp.reshape(in_deltas.shape), in_deltas, in_deltas)
diff --git a/brainstorm/layers/softmax_ce_layer.py b/brainstorm/layers/softmax_ce_layer.py
index 827768c..0d77a13 100644
--- a/brainstorm/layers/softmax_ce_layer.py
+++ b/brainstorm/layers/softmax_ce_layer.py
@@ -72,19 +72,20 @@ class SoftmaxCELayerImpl(Layer):
 
         # reshape
         flat_inputs = flatten_all_but_last(inputs)
-        flat_probs = flatten_all_but_last(predictions)
-        flat_loss = flatten_all_but_last(loss)
+        flat_probs = _h.allocate(flat_inputs.shape)
+        flat_loss = _h.allocate((flat_inputs.shape[0], 1))
         flat_targets = flatten_all_but_last(targets)
 
         # softmax
         _h.softmax_m(flat_inputs, flat_probs)
+        _h.copy_to(flat_probs.reshape(predictions.shape), predictions)
 
         # the multinomial cross entropy error is given by
         # - sum over i: p_i * ln(y_i)
         # now our targets are indices so all p_i = 0 except for i=t
-        _h.fill(loss, 0.)
         _h.index_m_by_v(flat_probs, flat_targets, flat_loss)
         _h.clip_t(flat_loss, 1e-6, 1.0, flat_loss)
+        _h.copy_to(flat_loss.reshape(loss.shape), loss)
         _h.log_t(loss, loss)
         _h.mult_st(-1, loss, loss)
 
@@ -103,7 +104,6 @@ class SoftmaxCELayerImpl(Layer):
         flat_targets = flatten_all_but_last(targets)
         flat_t_bin = flatten_all_but_last(t_bin)
         flat_dloss = flatten_all_but_last(dloss)
-        flat_dinputs = flatten_all_but_last(dinputs)
 
         # derivative of multinomial cross-entropy error wrt softmax:
         # y - t
@@ -111,4 +111,4 @@ class SoftmaxCELayerImpl(Layer):
         _h.mult_st(-1, flat_t_bin, flat_t_bin)
         _h.add_tt(flat_t_bin, flat_probs, flat_t_bin)
         _h.mult_mv(flat_t_bin, flat_dloss, flat_t_bin)
-        _h.add_tt(flat_t_bin, flat_dinputs, flat_dinputs)
+        _h.add_tt(flat_t_bin.reshape(dinputs.shape), dinputs, dinputs)
-- 
2.43.0


From 7bd899833ca2538e9c68da3589746139eb23a95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:33 +0000
Subject: [PATCH 13/22] fix: let pooling and cropping work on strided arrays

The kernels declared their arguments as C-contiguous, so a pooling layer whose
input or output shares a buffer hub with another layer, and RandomCrop on
minibatches of sequences (views of the data), failed with a ValueError.
---
 brainstorm/handlers/_cpuop.pyx | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/brainstorm/handlers/_cpuop.pyx b/brainstorm/handlers/_cpuop.pyx
index b27474c..932ec69 100644
--- a/brainstorm/handlers/_cpuop.pyx
+++ b/brainstorm/handlers/_cpuop.pyx
@@ -24,12 +24,12 @@ cdef inline int int_min(int a, int b) nogil: return a if a <= b else b
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
-def maxpool_forward(DTYPE_t[:, :, :, ::1] inputs not None,
+def maxpool_forward(DTYPE_t[:, :, :, :] inputs not None,
             tuple kernel not None,
-            DTYPE_t[:, :, :, ::1] outputs not None,
+            DTYPE_t[:, :, :, :] outputs not None,
             int padding,
             tuple strides not None,
-            DTYPE_t[:, :, :, ::1] argmax not None):
+            DTYPE_t[:, :, :, :] argmax not None):
     cdef int pool_h = kernel[0]
     cdef int pool_w = kernel[1]
     cdef int stride_x = strides[1]
@@ -81,14 +81,14 @@ def maxpool_forward(DTYPE_t[:, :, :, ::1] inputs not None,
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
-def maxpool_backward(DTYPE_t[:, :, :, ::1] inputs not None,
+def maxpool_backward(DTYPE_t[:, :, :, :] inputs not None,
                      tuple kernel not None,
-                     DTYPE_t[:, :, :, ::1] outputs not None,
+                     DTYPE_t[:, :, :, :] outputs not None,
                      const int padding,
                      tuple strides not None,
-                     DTYPE_t[:, :, :, ::1] argmax not None,
-                     DTYPE_t[:, :, :, ::1] in_deltas not None,
-                     DTYPE_t[:, :, :, ::1] out_deltas not None):
+                     DTYPE_t[:, :, :, :] argmax not None,
+                     DTYPE_t[:, :, :, :] in_deltas not None,
+                     DTYPE_t[:, :, :, :] out_deltas not None):
     cdef int pool_h = kernel[0]
     cdef int pool_w = kernel[1]
     cdef int stride_x = strides[1]
@@ -117,9 +117,9 @@ def maxpool_backward(DTYPE_t[:, :, :, ::1] inputs not None,
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
-def avgpool_forward(DTYPE_t[:, :, :, ::1] inputs not None,
+def avgpool_forward(DTYPE_t[:, :, :, :] inputs not None,
             tuple kernel not None,
-            DTYPE_t[:, :, :, ::1] outputs not None,
+            DTYPE_t[:, :, :, :] outputs not None,
             int padding,
             tuple strides not None):
     # NOTE: Modified to count only non-padding pixels
@@ -164,13 +164,13 @@ def avgpool_forward(DTYPE_t[:, :, :, ::1] inputs not None,
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
-def avgpool_backward(DTYPE_t[:, :, :, ::1] inputs not None,
+def avgpool_backward(DTYPE_t[:, :, :, :] inputs not None,
                      tuple kernel not None,
-                     DTYPE_t[:, :, :, ::1] outputs not None,
+                     DTYPE_t[:, :, :, :] outputs not None,
                      const int padding,
                      tuple strides not None,
-                     DTYPE_t[:, :, :, ::1] in_deltas not None,
-                     DTYPE_t[:, :, :, ::1] out_deltas not None):
+                     DTYPE_t[:, :, :, :] in_deltas not None,
+                     DTYPE_t[:, :, :, :] out_deltas not None):
     # NOTE: No modification need to count only non-padding pixels
     cdef int pool_h = kernel[0]
     cdef int pool_w = kernel[1]
@@ -204,12 +204,12 @@ def avgpool_backward(DTYPE_t[:, :, :, ::1] inputs not None,
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
-def _crop_images(DTYPE_t[:, :, :, :, ::1] inputs not None,
+def _crop_images(DTYPE_t[:, :, :, :, :] inputs not None,
                 int height,
                 int width,
                 np.int_t[:] row_indices,
                 np.int_t[:] col_indices,
-                DTYPE_t[:, :, :, :, ::1] outputs not None):
+                DTYPE_t[:, :, :, :, :] outputs not None):
     """
     Args:
         inputs (numpy.ndarray[ndim=5]):
-- 
2.43.0


From cc84dd61892f6c81bf22c156187670a3b9973962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:33 +0000
Subject: [PATCH 14/22] fix: RandomCrop must support float32 images

The cropped array always was float64, which the typed kernel rejects together
with float32 images.
---
 brainstorm/data_iterators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 6b0841d..1b33227 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -370,7 +370,8 @@ class RandomCrop(DataIterator):
                 max_c = w - crop_w
                 row_indices = self.rnd.random_integers(0, max_r, n)
                 col_indices = self.rnd.random_integers(0, max_c, n)
-                cropped = np.zeros((t, n, crop_h, crop_w, c))
+                cropped = np.zeros((t, n, crop_h, crop_w, c),
+                                   dtype=data[name].dtype)
                 _crop_images(data[name], crop_h, crop_w, row_indices,
                              col_indices, cropped)
                 data[name] = cropped
-- 
2.43.0


From 3aff5616add47efeef8f15402e0ba8736a1176d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:49 +0000
Subject: [PATCH 15/22] fix: a layer name must not end with a newline

'$' also matches before a trailing newline.
---
 brainstorm/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/utils.py b/brainstorm/utils.py
index 375f72c..1f016b1 100644
--- a/brainstorm/utils.py
+++ b/brainstorm/utils.py
@@ -14,7 +14,7 @@ from brainstorm.__about__ import __version__
 product = lambda arr: reduce(operator.mul, arr, 1)
 
 
-PYTHON_IDENTIFIER = re.compile("^[_a-zA-Z][_a-zA-Z0-9]*$")
+PYTHON_IDENTIFIER = re.compile("^[_a-zA-Z][_a-zA-Z0-9]*\\Z")
 
 NAME_BLACKLIST = {'default', 'fallback'}
 
-- 
2.43.0


From 4029ed78b4f6ccc7c1df89fb050dd810645953a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:15 +0000
Subject: [PATCH 16/22] fix: ForwardStepper.run must return the loss

It called the non-existing method Network.get_loss_value.
---
 brainstorm/training/steppers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/training/steppers.py b/brainstorm/training/steppers.py
index 286e547..be4df9e 100644
--- a/brainstorm/training/steppers.py
+++ b/brainstorm/training/steppers.py
@@ -40,7 +40,7 @@ class ForwardStepper(TrainingStepper):
 
     def run(self):
         self.net.forward_pass(training_pass=self.use_training_pass)
-        return self.net.get_loss_value()
+        return self.net.get_loss_values()['total_loss']
 
 
 class SgdStepper(TrainingStepper):
-- 
2.43.0


From d15ec43bcaa7d9aae357aa8496806fbb28fa202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:32 +0000
Subject: [PATCH 17/22] fix: descriptions of hooks must not contain their
 dynamic state

After training, a trainer with a ProgressBar could not be described at all,
SaveBestNetwork was re-created with the old best value (but without the
parameters belonging to it), and the monitoring hooks described the whole data
set.
---
 brainstorm/hooks.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 7dd32e4..658770a 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -109,7 +109,8 @@ class SaveBestNetwork(Hook):
             ...                                       filename='best_loss.h5',
         ...                                           criterion='min'))
     """
-    __undescribed__ = {'parameters': None}
+    __undescribed__ = {'parameters': None, 'best_parameters': None,
+                       'best_so_far': None, 'best_t': None}
     __default_values__ = {'filename': None}
 
     def __init__(self, log_name, filename=None, criterion='max', name=None,
@@ -124,6 +125,10 @@ class SaveBestNetwork(Hook):
         self.best_t = None
         self.criterion = criterion
 
+    def __init_from_description__(self, description):
+        super(SaveBestNetwork, self).__init_from_description__(description)
+        self.best_so_far = np.inf if self.criterion == 'min' else -np.inf
+
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
         if epoch_nr == 0:
             try:
@@ -355,6 +360,8 @@ class MonitorLoss(Hook):
     Monitor the losses computed by the network on a dataset using a given data
     iterator.
     """
+    __undescribed__ = {'iter': None}
+
     def __init__(self, iter_name, name=None, timescale='epoch', interval=1,
                  verbose=None):
         super(MonitorLoss, self).__init__(name, timescale, interval, verbose)
@@ -401,6 +408,8 @@ class MonitorScores(Hook):
         MonitorLoss: monitor the overall loss of the network.
 
     """
+    __undescribed__ = {'iter': None}
+
     def __init__(self, iter_name, scorers, name=None, timescale='epoch',
                  interval=1, verbose=None):
 
@@ -821,6 +830,8 @@ else:
 
 class ProgressBar(Hook):
     """ Adds a progress bar to show the training progress. """
+    __undescribed__ = {'length': None, 'bar': None}
+
     def __init__(self):
         super(ProgressBar, self).__init__(None, 'update', 1)
         self.length = None
-- 
2.43.0


From e9d1d06add482df68357ea266e33d2798088663f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:32 +0000
Subject: [PATCH 18/22] fix: extract must not broadcast batches of length 1
 over time

A batch that was cut to a single time step was silently repeated for all time
steps of the first batch; other mismatching lengths already raised an error.
---
 brainstorm/tools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/brainstorm/tools.py b/brainstorm/tools.py
index 2b00f63..a5cd1d6 100644
--- a/brainstorm/tools.py
+++ b/brainstorm/tools.py
@@ -116,6 +116,8 @@ def extract(network, iter, buffer_names):
             if first_pass:
                 data_shape = (data.shape[0], nr_examples) + data.shape[2:]
                 return_data[buffer_name] = np.zeros(data_shape, data.dtype)
+            if data.shape[0] != return_data[buffer_name].shape[0]:
+                raise ValueError("Cannot combine batches of different lengths")
             return_data[buffer_name][:, nr_items - data.shape[1]:nr_items] = \
                 data
     return return_data
@@ -172,6 +174,9 @@ def extract_and_save(network, iter, buffer_names, file_name):
                         maxshape=(data.shape[0], None) + data.shape[2:]))
                     ds[-1][:] = data
                 else:
+                    if data.shape[0] != ds[num].shape[0]:
+                        raise ValueError("Cannot combine batches of different "
+                                         "lengths")
                     ds[num].resize(size=nr_items, axis=1)
                     ds[num][:, nr_items - data.shape[1]:nr_items, ...] = data
 
-- 
2.43.0


From 063ec8e85b2b3bdc45e746472dd8e2023c5e9337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:11 +0000
Subject: [PATCH 19/22] fix: el must not return NaN for large positive inputs

exp(x) overflowed to infinity and was then multiplied by 0.
---
 brainstorm/handlers/numpy_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/handlers/numpy_handler.py b/brainstorm/handlers/numpy_handler.py
index 5524656..eed2222 100644
--- a/brainstorm/handlers/numpy_handler.py
+++ b/brainstorm/handlers/numpy_handler.py
@@ -299,7 +299,7 @@ class NumpyHandler(Handler):
 
     def el(self, x, y):
         # TODO: Optimize this implementation
-        y[:] = x * (x >= 0.) + (np.exp(x) - 1.) * (x < 0.)
+        y[:] = np.where(x >= 0., x, np.exp(np.minimum(x, 0.)) - 1.)
 
     def el_deriv(self, x, y, dy, dx):
         # TODO: Optimize this implementation
-- 
2.43.0


From e35c1438d535e5d3727dfb05ffb5b28bfebeeee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:47 +0000
Subject: [PATCH 20/22] fix: EchoState must refuse more than two dimensions

It failed with an unrelated error, so that a fallback was not used.
---
 brainstorm/initializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index effcf9a..da9b6b9 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -166,7 +166,7 @@ class EchoState(Initializer):
 
     def __call__(self, shape):
         self._assert_atleast2d(shape)
-        if shape[0] != shape[1]:
+        if len(shape) != 2 or shape[0] != shape[1]:
             raise InitializationError("Matrix should be square but was: {}"
                                       "".format(shape))
 
-- 
2.43.0


From 247002c1939111e8bb21556630e7ebfdfc60e75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:19 +0000
Subject: [PATCH 21/22] fix: refuse architectures with more than one input
 layer

The documentation requires exactly one Input layer; a second one under
another name was accepted, received no data, and could take the place of
the first layer, which the forward pass skips.
---
 brainstorm/structure/architecture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brainstorm/structure/architecture.py b/brainstorm/structure/architecture.py
index 722fa3a..6ab8500 100644
--- a/brainstorm/structure/architecture.py
+++ b/brainstorm/structure/architecture.py
@@ -109,8 +109,8 @@ def validate_architecture(architecture):
             'Could not find end layer(s) "{}"'.format(undefined_end_layers))
 
     # has exactly one Input and its called Input
-    if "Input" not in architecture or \
-            architecture['Input']['@type'] != 'Input':
+    if [name for name, layer in architecture.items()
+            if layer['@type'] == 'Input'] != ['Input']:
         raise NetworkValidationError(
             'Needs exactly one Input that is called "Input"')
 
-- 
2.43.0


From 8b25c84b49f092fc5c021519051bc048918dbc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:14 +0000
Subject: [PATCH 22/22] fix: describe the weights given to FreezeValues

---
 brainstorm/value_modifiers.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/brainstorm/value_modifiers.py b/brainstorm/value_modifiers.py
index dc6aa7a..4f19107 100644
--- a/brainstorm/value_modifiers.py
+++ b/brainstorm/value_modifiers.py
@@ -163,21 +163,28 @@ class FreezeValues(ValueModifier):
     weights to affect.
     """
 
-    __undescribed__ = {'weights', 'device_weights'}
+    __undescribed__ = {'frozen_weights', 'device_weights'}
 
     def __init__(self, weights=None):
         super(FreezeValues, self).__init__()
         self.weights = weights
+        self.frozen_weights = None
         self.device_weights = None
 
+    def __init_from_description__(self, description):
+        super(FreezeValues, self).__init_from_description__(description)
+        weights = description.get('weights')
+        self.weights = None if weights is None else np.array(weights)
+
     def __call__(self, handler, view):
-        if self.weights is None:
-            self.weights = handler.get_numpy_copy(view)
+        if self.frozen_weights is None:
+            self.frozen_weights = (self.weights if self.weights is not None
+                                   else handler.get_numpy_copy(view))
 
         if (self.device_weights is None or
                 not isinstance(self.device_weights, handler.array_type)):
-            self.device_weights = handler.allocate(self.weights.shape)
-            handler.set_from_numpy(self.device_weights, self.weights)
+            self.device_weights = handler.allocate(self.frozen_weights.shape)
+            handler.set_from_numpy(self.device_weights, self.frozen_weights)
 
         handler.copy_to(self.device_weights, view)
 
-- 
2.43.0

