From 904faade612492c8082621566d35434fa48868b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:14 +0000
Subject: [PATCH 01/23] fix: eml_trees_predict found no class when all class
 proportions are 0

---
 emlearn/eml_trees.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_trees.h b/emlearn/eml_trees.h
index 531cd02..7b4bcb9 100644
--- a/emlearn/eml_trees.h
+++ b/emlearn/eml_trees.h
@@ -216,7 +216,7 @@ eml_trees_predict(const EmlTrees *forest, const int16_t *features, int8_t featur
     }
 
     int32_t most_voted_class = -1;
-    float most_voted_value = 0.0f;
+    float most_voted_value = -1.0f; // below any vote, so that a class is found also when all proportions are 0
     for (int32_t i=0; i<n_classes; i++) {
         //printf("votes[%d]: %d\n", i, votes[i]);
         if (votes[i] > most_voted_value) {
-- 
2.43.0


From e1c716408fdba05e21ccb7568f746287810ea56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 02/23] fix: eml_net_predict_proba reported 1-p,p also for
 networks with two outputs

---
 emlearn/eml_net.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_net.h b/emlearn/eml_net.h
index 2cd984c..54796d3 100644
--- a/emlearn/eml_net.h
+++ b/emlearn/eml_net.h
@@ -303,7 +303,7 @@ eml_net_predict_proba(EmlNet *model, const float *features, int32_t features_len
 
     float proba_sum = 0.0f;
 
-    if (n_outputs == 2) {
+    if (eml_net_outputs(model) == 1) {
         out[1] = model->activations2[0];
         out[0] = 1.0f - out[1];
         proba_sum = out[0] + out[1];
-- 
2.43.0


From edfc8949b731464f479ecc7237dcd1f2efe6d277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:50 +0000
Subject: [PATCH 03/23] fix: eml_net_regress and eml_net_predict_proba read
 layers of an invalid model

---
 emlearn/eml_net.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emlearn/eml_net.h b/emlearn/eml_net.h
index 54796d3..fc54211 100644
--- a/emlearn/eml_net.h
+++ b/emlearn/eml_net.h
@@ -294,6 +294,7 @@ eml_net_predict_proba(EmlNet *model, const float *features, int32_t features_len
                                   float *out, int32_t out_length)
 {
     EML_PRECONDITION(eml_net_valid(model), EmlUninitialized);
+    EML_PRECONDITION(model->n_layers >= 2, EmlUnsupported);
     EML_PRECONDITION(features, EmlUninitialized);
     EML_PRECONDITION(out, EmlUninitialized);
     const int32_t n_outputs = eml_net_outputs_proba(model);
@@ -364,6 +365,8 @@ eml_net_predict(EmlNet *model, const float *features, int32_t features_length) {
 EmlError
 eml_net_regress(EmlNet *model, const float *features, int32_t features_length, float *out, int32_t out_length)
 {
+    EML_PRECONDITION(eml_net_valid(model), EmlUninitialized);
+    EML_PRECONDITION(model->n_layers >= 2, EmlUnsupported);
     EML_PRECONDITION(out, EmlUninitialized);
     const int32_t n_outputs = eml_net_outputs(model);
     EML_PRECONDITION(out_length == n_outputs, EmlSizeMismatch);
-- 
2.43.0


From 649d40eacf8595d181f23d184543146d43de2591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 04/23] fix: nearest neighbour distances overflowed and
 eml_isqrt did not terminate for large values

---
 emlearn/eml_neighbors.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/emlearn/eml_neighbors.h b/emlearn/eml_neighbors.h
index c90a318..4956e77 100644
--- a/emlearn/eml_neighbors.h
+++ b/emlearn/eml_neighbors.h
@@ -26,14 +26,14 @@ in order to support on-device learning.
 #endif // EML_NEIGHBORS_MAX_CLASSES
 
 
-int32_t eml_isqrt(int32_t x)
+int64_t eml_isqrt(int64_t x)
 {
-    int32_t q = 1, r = 0;
+    int64_t q = 1, r = 0;
     while (q <= x) {
         q <<= 2;
     }
     while (q > 1) {
-        int32_t t;
+        int64_t t;
         q >>= 2;
         t = x - r - q;
         r >>= 1;
@@ -48,11 +48,11 @@ int32_t eml_isqrt(int32_t x)
 uint32_t
 eml_distance_euclidean_int16(const int16_t *a, const int16_t *b, int length)
 {
-    // FIXME: test this with large values
-    uint32_t ret = 0;
+    // The sum does not fit 32 bits for large values
+    int64_t ret = 0;
     for (int i=0; i<length; i++) {
         const int32_t diff = a[i] - b[i];        
-        const int32_t d = diff * diff;
+        const int64_t d = (int64_t)diff * diff;
         ret += d;
     }
     ret = eml_isqrt(ret); 
-- 
2.43.0


From 3e048ae65bacff1f5927054b73e2e4afdfd8b28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:24 +0000
Subject: [PATCH 05/23] fix: eml_bayes_predict wrote past its class buffer and
 read past the model summaries

---
 emlearn/eml_bayes.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlearn/eml_bayes.h b/emlearn/eml_bayes.h
index 056d4f8..a30aab0 100644
--- a/emlearn/eml_bayes.h
+++ b/emlearn/eml_bayes.h
@@ -112,6 +112,8 @@ eml_bayes_predict(EmlBayesModel *model, const float values[], int32_t values_len
    EML_PRECONDITION(model, -EmlUninitialized);
    EML_PRECONDITION(values, -EmlUninitialized);
    EML_PRECONDITION(model->n_classes >= 2, -EmlUninitialized);
+   EML_PRECONDITION(model->n_classes <= EML_MAX_CLASSES, -EmlUnsupported);
+   EML_PRECONDITION(values_length == model->n_features, -EmlSizeMismatch);
 
    eml_q16_t class_probabilities[EML_MAX_CLASSES];
 
-- 
2.43.0


From 3d7b76f52c19a99998cc396728a376ef0a7b1f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 06/23] fix: eml_dot_product returned a truth value instead of
 the product

---
 emlearn/eml_mixture.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_mixture.h b/emlearn/eml_mixture.h
index c19343d..9e68249 100644
--- a/emlearn/eml_mixture.h
+++ b/emlearn/eml_mixture.h
@@ -14,7 +14,7 @@ extern "C" {
 // numpy.log(2*numpy.pi)
 #define EML_LOG_2PI 1.8378770664093453
 
-bool
+float
 eml_dot_product(float *a, float *b, int n)
 {
     float sum = 0; 
-- 
2.43.0


From 27fe9fee050e804a84a3e49a1982a9170725080f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 07/23] fix: eml_mixture_predict_log_proba read past values
 shorter than the model's features

---
 emlearn/eml_mixture.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emlearn/eml_mixture.h b/emlearn/eml_mixture.h
index 9e68249..34c4d82 100644
--- a/emlearn/eml_mixture.h
+++ b/emlearn/eml_mixture.h
@@ -168,6 +168,7 @@ eml_mixture_predict_log_proba(EmlMixtureModel *model,
     EML_PRECONDITION(model, -EmlUninitialized);
     EML_PRECONDITION(values, -EmlUninitialized);
     EML_PRECONDITION(model->n_components > 0, -EmlUninitialized);
+    EML_PRECONDITION(values_length == model->n_features, -EmlSizeMismatch);
 
     float *out = probabilities;
     const int n_features = model->n_features;
-- 
2.43.0


From 2626865822d84c7af5c46867ada36c71ab8c4886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 08/23] fix: eml_array_init_full accepted dimensions whose
 product overflows

---
 emlearn/eml_array.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/emlearn/eml_array.h b/emlearn/eml_array.h
index 8782bfb..b320d51 100644
--- a/emlearn/eml_array.h
+++ b/emlearn/eml_array.h
@@ -49,6 +49,15 @@ eml_array_init_full(EmlArray *self,
     EML_PRECONDITION(n_dims <= EML_ARRAY_MAX_DIMS, EmlSizeMismatch);
     EML_PRECONDITION(n_dims >= 1, EmlSizeMismatch);
     EML_PRECONDITION(dimensions[0] >= 1, EmlSizeMismatch);
+    EML_PRECONDITION(value_size >= 1, EmlSizeMismatch);
+
+    // Offsets into the data are computed using int, and must not overflow
+    int32_t total_size = value_size;
+    for (int d=0; d<n_dims; d++) {
+        EML_PRECONDITION(dimensions[d] >= 0, EmlSizeMismatch);
+        EML_PRECONDITION(dimensions[d] == 0 || total_size <= INT32_MAX / dimensions[d], EmlSizeMismatch);
+        total_size *= dimensions[d];
+    }
 
     const size_t buffer_needed = eml_storage_size_array(n_dims, dimensions, value_size);
     EML_PRECONDITION(buffer_needed <= buffer_length, EmlSizeMismatch);
-- 
2.43.0


From be2e931d14a3bc2bfc3a3d9c6ba375008b1bdc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 09/23] fix: eml_array_shift_rows accepted a shift of INT_MIN

---
 emlearn/eml_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_array.h b/emlearn/eml_array.h
index b320d51..fcee231 100644
--- a/emlearn/eml_array.h
+++ b/emlearn/eml_array.h
@@ -168,7 +168,7 @@ eml_array_shift_rows(EmlArray *self, int shift)
     const int rows = self->dims[1];
     EML_PRECONDITION(self->n_dims == 2, EmlUnsupported);
     // trying to shift more than the size of buffer is likely an error
-    EML_PRECONDITION(abs(shift) <= rows, EmlSizeMismatch);
+    EML_PRECONDITION(shift >= -rows && shift <= rows, EmlSizeMismatch);
     EML_PRECONDITION(shift <= 0, EmlUnsupported); // TODO: support also forward shifts
 
     const size_t row_size = self->value_size * self->dims[0];
-- 
2.43.0


From 0fece27b86047a10aa10f372839b33dd58b8a18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 10/23] fix: eml_array_copy_rows read past the other array for
 a different value size, and overflowed for large start

---
 emlearn/eml_array.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emlearn/eml_array.h b/emlearn/eml_array.h
index fcee231..2a9d443 100644
--- a/emlearn/eml_array.h
+++ b/emlearn/eml_array.h
@@ -211,11 +211,13 @@ eml_array_copy_rows(EmlArray *self, int start, const EmlArray *other)
     EML_PRECONDITION(start >= 0, EmlUnsupported);
     // must have same number of columns
     EML_PRECONDITION(other->dims[0] == self->dims[0], EmlSizeMismatch);
+    // must have same type of values
+    EML_PRECONDITION(other->value_size == self->value_size, EmlSizeMismatch);
     // other must not be too big
 
 //    fprintf(stderr, "start %d - %d- other_rows %d, self_rows %d \n",
 //        start, start+other->dims[1], other->dims[1], self->dims[1]);
-    EML_PRECONDITION((start + other->dims[1]) <= self->dims[1], EmlSizeMismatch);
+    EML_PRECONDITION(start <= self->dims[1] - other->dims[1], EmlSizeMismatch);
 
 
     const size_t row_size = self->value_size * self->dims[0];
-- 
2.43.0


From a94d325500750ea1bd9d9dd3f1fec5d9dae41543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:14 +0000
Subject: [PATCH 11/23] fix: identifier_is_valid accepted a name with a
 trailing newline

---
 emlearn/cgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/cgen.py b/emlearn/cgen.py
index e83d2d6..efa29cb 100644
--- a/emlearn/cgen.py
+++ b/emlearn/cgen.py
@@ -7,7 +7,7 @@ C code generation utilities
 
 import re
 
-VALID_IDENTIFIER_REGEX = r'^[_a-zA-Z][_a-zA-Z0-9]*$' # valid C identifiers
+VALID_IDENTIFIER_REGEX = r'^[_a-zA-Z][_a-zA-Z0-9]*\Z' # valid C identifiers
 from .creserved import RESERVED_WORDS
 
 from .fixedpoint import FixedPointFormat, from_float
-- 
2.43.0


From 1bd16a437c7bf545c299cfdc4e63e2dedf4cf1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:24 +0000
Subject: [PATCH 12/23] fix: generating inline network code failed for every
 network

---
 emlearn/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/net.py b/emlearn/net.py
index 8e06731..620666f 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -173,7 +173,7 @@ def c_generate_layer_data(activations, weights, biases, prefix : str,
         if include_constants:
             activation_name = format_name(layer_no, 'activation')
             activation_func = c_activation_function(l_act)
-            add_declaration(cgen.constant_declare(activation_name, activation_func))
+            add_declaration(cgen.constant_declare(activation_name, activation_func, dtype='EmlNetActivationFunction'))
 
         # bias
         biases_name = format_name(layer_no, 'biases') 
-- 
2.43.0


From f069ee7d9fe3d3d39a75d62dc7a24d4ee897c014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:37 +0000
Subject: [PATCH 13/23] fix: small floating-point values were written as zero
 in generated code

---
 emlearn/cgen.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/emlearn/cgen.py b/emlearn/cgen.py
index efa29cb..4932435 100644
--- a/emlearn/cgen.py
+++ b/emlearn/cgen.py
@@ -47,7 +47,11 @@ def constant(val, dtype='float'):
     "3.14f"
     """
     if dtype == 'float':
-        return "{:.6f}f".format(val)
+        # 9 significant digits identify every single-precision value
+        s = "{:.9g}".format(val)
+        if not ('.' in s or 'e' in s):
+            s += '.0'
+        return s + 'f'
     elif 'int' in dtype:
         return "{:d}".format(int(val))
     else:
@@ -65,7 +69,7 @@ def constant_declare(name, val, dtype='int'):
 
     >>> from emlearn import cgen
     >>> cgen.constant_declare('myfloat', 3.14, dtype='float')
-    'static const float myfloat = 3.140000f; '
+    'static const float myfloat = 3.14f; '
     """
     v = constant(val, dtype=dtype)
     return f'static const {dtype} {name} = {v}; '
-- 
2.43.0


From 27a4d1bfe6775f463d5d6f058020c80e601fa55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:11 +0000
Subject: [PATCH 14/23] fix: tree tables accepted a child reference of 32768,
 and references of a node to itself

---
 emlearn/trees.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index d022e83..f438107 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -288,17 +288,17 @@ def remove_duplicate_leaves(forest):
     return f
 
 
-def assert_valid_child(value, child_max = 2**15, child_min = -2**15):
+def assert_valid_child(value, child_max = 2**15-1, child_min = -2**15):
     assert value >= child_min, value
     assert value <= child_max, value
 
 def encode_child(index, child):
     if child >= 0:
         # decision node, use relative jump
-        assert child >= index
+        assert child > index
         encoded = child - index
         # must not become negative, would be confused with a leaf
-        assert encoded >= 0
+        assert encoded > 0
     else:
         # leaf node, leave as-as
         encoded = child
-- 
2.43.0


From 7b687fd6665316b240e1e153cae7fab6c9b52ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:11 +0000
Subject: [PATCH 15/23] fix: saving a tree without decision nodes as CSV failed

---
 emlearn/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index f438107..2468127 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -900,7 +900,7 @@ class Wrapper:
                 left = encode_child(index, left_child)
                 right = encode_child(index, right_child)
 
-                serialized = f'n,{feature},{value.round(6)},{left},{right}'
+                serialized = f'n,{feature},{numpy.round(value, 6)},{left},{right}'
                 return serialized
 
             for i, n in enumerate(nodes):
-- 
2.43.0


From 5cee4e931437c4517c97af5f870a4c3d92b44fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:36 +0000
Subject: [PATCH 16/23] fix: Quantizer overflowed for 32-bit integers with
 single-precision input

---
 emlearn/preprocessing/quantizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/preprocessing/quantizer.py b/emlearn/preprocessing/quantizer.py
index 310a619..0e1ba81 100644
--- a/emlearn/preprocessing/quantizer.py
+++ b/emlearn/preprocessing/quantizer.py
@@ -66,8 +66,8 @@ class Quantizer(BaseEstimator, TransformerMixin):
 
     def transform(self, X, y=None):
 
-        # scale
-        out = X * self.scale_
+        # scale, with enough precision to represent the limits exactly
+        out = X.astype(float) * self.scale_
 
         # clip out-of-range values
         out_max = self._get_out_max()
-- 
2.43.0


From fc03b25927ee3669b5dba6ad2c4b384834b2d2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:01 +0000
Subject: [PATCH 17/23] fix: eml_audio_melspec read past the spectrum when the
 last filter ends at its length

---
 emlearn/eml_audio.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_audio.h b/emlearn/eml_audio.h
index ef3e262..f0beb7a 100644
--- a/emlearn/eml_audio.h
+++ b/emlearn/eml_audio.h
@@ -102,7 +102,7 @@ eml_audio_melspec(EmlAudioMel mel, EmlVector spec, EmlVector mels) {
         if (left < 0) {
             return EmlUnknownError;
         }
-        if (right > max_bin) {
+        if (right >= max_bin) {
             return EmlUnknownError;
         }
 
-- 
2.43.0


From edb556d831ee39ba0fe9d6ec2cc701b2e3a6dd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:01 +0000
Subject: [PATCH 18/23] fix: sparse_filterbank dropped zeros between nonzero
 coefficients, shifting all following coefficients

---
 emlearn/signal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlearn/signal.py b/emlearn/signal.py
index 9749801..1fb73ad 100644
--- a/emlearn/signal.py
+++ b/emlearn/signal.py
@@ -19,7 +19,8 @@ def sparse_filterbank(mels):
         first, last = nonzero[0], nonzero[-1]
         starts.append(first)
         ends.append(last)
-        coeffs += list(mel[nonzero])
+        # zeros between first and last are part of the range
+        coeffs += list(mel[first:last+1])
 
     return starts, ends, coeffs
 
-- 
2.43.0


From 746b4ccc0cefd0bfd389e4edb4b432c85d5dae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:35 +0000
Subject: [PATCH 19/23] fix: CSV reader used a failed read as a length and ran
 past the buffer

---
 emlearn/eml_csv.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index 8a16bc8..6d4e6ef 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -113,8 +113,12 @@ eml_csv_reader_read_internal(EmlCsvReader *self,
 
     // Copy the (potential header) into our buffer
     // We will return pointers into this buffer
-    const size_t read_length = \
+    const int read_status = \
         self->read(self->stream, (uint8_t *)buffer, buffer_length);
+    if (read_status < 0) {
+        return EmlUnknownError;
+    }
+    const size_t read_length = read_status;
 
     // Find start of data / end-of-header
     // int data_start = -1; // XXX: why unused?
-- 
2.43.0


From c02c863abe81de0547adba3a5fff22ffaeff6f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:35 +0000
Subject: [PATCH 20/23] fix: CSV reader lost the last column of a line without
 line end

---
 emlearn/eml_csv.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index 6d4e6ef..aecce31 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -156,6 +156,16 @@ eml_csv_reader_read_internal(EmlCsvReader *self,
         }
     }
 
+    if (read_length > 0 && offset == read_length) {
+        // No end-of-line found. OK at the end of the file, otherwise the line did not fit in the buffer
+        if (read_length >= buffer_length || column_idx >= columns_length) {
+            return EmlUnknownError;
+        }
+        columns[column_idx] = buffer+column_start_offset;
+        column_idx += 1;
+        buffer[offset] = '\0';
+    }
+
     *out_columns = column_idx;
     *out_offset = offset;
 
-- 
2.43.0


From 990a7c2480c0e0867f6000227f437f804cd89192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:35 +0000
Subject: [PATCH 21/23] fix: CSV reader took an empty line for the end of the
 file

---
 emlearn/eml_csv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index aecce31..c634333 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -215,7 +215,7 @@ eml_csv_reader_read_data(EmlCsvReader *self,
         return -EmlUnknownError;
     }
 
-    if (characters_read == 0) {
+    if (columns_read == 0) {
         // EOF presumably
         return 0;
     }
-- 
2.43.0


From 0f561b7e5ca9c7b1d03137d84f1b14cf431ed106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:35 +0000
Subject: [PATCH 22/23] fix: eml_csv_reader_read_data reported too few column
 pointers as a number of columns

---
 emlearn/eml_csv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index c634333..b9711ab 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -204,7 +204,7 @@ eml_csv_reader_read_data(EmlCsvReader *self,
         char *buffer, size_t buffer_length,
         char **columns, size_t columns_length)
 {
-    EML_PRECONDITION(columns_length >= self->n_columns, EmlSizeMismatch);
+    EML_PRECONDITION(columns_length >= self->n_columns, -EmlSizeMismatch);
 
     int columns_read = 0;
     int characters_read = 0;
-- 
2.43.0


From ab58633d23708e77a0efc01a920b4271a48d97ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:49 +0000
Subject: [PATCH 23/23] fix: eml_audio_melspectrogram accessed memory outside
 too short vectors

---
 emlearn/eml_audio.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emlearn/eml_audio.h b/emlearn/eml_audio.h
index f0beb7a..7a53fca 100644
--- a/emlearn/eml_audio.h
+++ b/emlearn/eml_audio.h
@@ -154,6 +154,9 @@ eml_audio_melspectrogram(EmlAudioMel mel_params, EmlFFT fft, EmlVector inout, Em
     const int n_fft = mel_params.n_fft;
     const int s_length = 1+n_fft/2;
     const int n_mels = mel_params.n_mels;
+
+    EML_PRECONDITION(temp.length >= inout.length, EmlSizeMismatch);
+    EML_PRECONDITION(n_mels <= inout.length, EmlSizeMismatch);
  
     // Apply window
     EML_CHECK_ERROR(eml_signal_hann_apply(inout.data, inout.length));
-- 
2.43.0

