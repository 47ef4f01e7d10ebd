From 482a024a07c5e304a7854b30c77ce297c378af03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:27 +0000
Subject: [PATCH 01/64] fix: Conv2D reference inference applies the dilation
 rate

---
 src/acetone_nnet/generator/layers/convolution/Conv2D.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2D.py b/src/acetone_nnet/generator/layers/convolution/Conv2D.py
index 09d82eb..c23591b 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2D.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2D.py
@@ -267,6 +267,10 @@ class Conv2D(Layer):
         else:
             input_padded = input_array
 
+        # Extent of the dilated kernel
+        window_h = self.dilation_rate * (self.kernel_h - 1) + 1
+        window_w = self.dilation_rate * (self.kernel_w - 1) + 1
+
         for f in range(self.nb_filters):
             for i in range(self.output_height):
                 for j in range(self.output_width):
@@ -274,8 +278,8 @@ class Conv2D(Layer):
                         self.weights[f, :, :, :]
                         * input_padded[
                             ::self.group,
-                            i * self.strides : i * self.strides + self.kernel_h,
-                            j * self.strides : j * self.strides + self.kernel_w,
+                            i * self.strides : i * self.strides + window_h : self.dilation_rate,
+                            j * self.strides : j * self.strides + window_w : self.dilation_rate,
                         ]
                     )
                     output[f, i, j] = np.sum(w) + self.biases[f]
-- 
2.43.0


From 9375d4730c14385859d5953f67990760dc862c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 02/64] fix: im2col and im2row apply the dilation rate

---
 .../generator/layers/convolution/Conv2DGemmTarget.py          | 1 +
 .../generator/layers/convolution/Conv2DStdGemm.py             | 2 ++
 src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl  | 4 ++--
 src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl  | 4 ++--
 4 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py b/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py
index 00cd4f7..7b1e64d 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py
@@ -86,6 +86,7 @@ class Conv2DGemmTarget(Conv2DGemm):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
         mustach_hash["strides"] = self.strides
+        mustach_hash["dilation_rate"] = self.dilation_rate
         mustach_hash["pad_top"] = self.pad_top
         mustach_hash["pad_left"] = self.pad_left
         mustach_hash["input_height"] = self.input_height
diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py b/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
index 5f01a03..5708bc6 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
@@ -54,6 +54,7 @@ class Conv2DStdGemm(Conv2DGemm):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
         mustach_hash["strides"] = self.strides
+        mustach_hash["dilation_rate"] = self.dilation_rate
         mustach_hash["pad_top"] = self.pad_top
         mustach_hash["pad_left"] = self.pad_left
         mustach_hash["input_height"] = self.input_height
@@ -82,6 +83,7 @@ class Conv2DStdGemm(Conv2DGemm):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
         mustach_hash["strides"] = self.strides
+        mustach_hash["dilation_rate"] = self.dilation_rate
         mustach_hash["pad_top"] = self.pad_top
         mustach_hash["pad_left"] = self.pad_left
         mustach_hash["input_height"] = self.input_height
diff --git a/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl
index f64e496..8ff48f5 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl
@@ -9,8 +9,8 @@
         {
             for (w = 0; w < {{output_width}}; ++w)
             {
-                int ii = h * {{strides}} - {{pad_top}} + i_offset;
-                int jj = w * {{strides}} - {{pad_left}} + j_offset;
+                int ii = h * {{strides}} - {{pad_top}} + i_offset * {{dilation_rate}};
+                int jj = w * {{strides}} - {{pad_left}} + j_offset * {{dilation_rate}};
 
                 int j = h*{{output_width}} + w;
                 if (ii >= 0 && ii < {{input_height}} && jj >= 0 && jj < {{input_width}})
diff --git a/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
index 9d5e2e0..60fd927 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
@@ -8,8 +8,8 @@
         {
             for (w = 0; w < {{output_width}}; ++w)
             {
-                int ii = h * {{strides}} - {{pad_top}} + i_offset;
-                int jj = w * {{strides}} - {{pad_left}} + j_offset;
+                int ii = h * {{strides}} - {{pad_top}} + i_offset * {{dilation_rate}};
+                int jj = w * {{strides}} - {{pad_left}} + j_offset * {{dilation_rate}};
                 int j = w*{{output_height}} + h;
                 if (ii >= 0 && ii < {{input_height}} && jj >= 0 && jj < {{input_width}})
                     ctx->output_{{road}}[j*{{patches_height}} + i] = ctx->{{output_str}}[(c_offset*{{input_height}} + ii)*{{input_width}} + jj];
-- 
2.43.0


From d392889b0a1948ee787a941ff1e10ec6b2dcfc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 03/64] fix: gemm variants nt, tn and tt of the im2col
 convolution

---
 .../generator/layers/convolution/Conv2DGemm.py     |  4 ++--
 .../layers/Conv/template_Conv_gemm_nt.c.tpl        |  2 +-
 .../layers/Conv/template_Conv_gemm_tn.c.tpl        | 14 +++++++-------
 .../layers/Conv/template_Conv_gemm_tt.c.tpl        |  4 ++--
 .../templates/layers/Conv/template_im2row.c.tpl    |  2 +-
 5 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py b/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py
index 892a83d..6bd880d 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py
@@ -99,7 +99,7 @@ class Conv2DGemm(Conv2D):
         mustach_hash["A"] = a
         mustach_hash["ldA"] = k
         mustach_hash["B"] = b
-        mustach_hash["ldB"] = n
+        mustach_hash["ldB"] = k
         mustach_hash["C"] = c
         mustach_hash["ldC"] = n
         mustach_hash["activation_function"] = self.activation_function.write_activation_str(
@@ -169,7 +169,7 @@ class Conv2DGemm(Conv2D):
         mustach_hash["A"] = a
         mustach_hash["ldA"] = k
         mustach_hash["B"] = b
-        mustach_hash["ldB"] = n
+        mustach_hash["ldB"] = k
         mustach_hash["C"] = c
         mustach_hash["ldC"] = n
         mustach_hash["activation_function"] = self.activation_function.write_activation_str(
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
index 3881f78..e07dcf8 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
@@ -6,7 +6,7 @@
             register float output =0;
             for (p = 0; p < {{k}}; ++p)
             {
-                output += {{A}}[i*{{ldA}}+p]* {{#direct}}*{{/direct}}({{B}}[j*{{ldB}}+p]);
+                output += {{A}}[i*{{ldA}}+p]* {{#direct}}*{{/direct}}(ctx->{{B}}[j*{{ldB}}+p]);
             }
             output += biases_{{name}}_{{idx}}[i];
             ctx->tensor_temp[i*{{ldC}}+j] = {{{activation_function}}};
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
index 9d139f2..25d4d2b 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
@@ -3,15 +3,15 @@
     {
         for (p = 0; p < {{k}}; ++p)
         {
-            float register weight = {{A}}[p*{{ldA}}+i];
+            float register weight = {{A}}[i*{{ldA}}+p];
             for (j = 0; j < {{n}}; ++j)
             {
-                ctx->tensor_temp[i*{{ldC}}+j] += weight * {{#direct}}*{{/direct}}({{B}}[p*{{ldB}}+j]);
-            }
-            for(j = 0; j < {{n}}; ++j){
-                register float output = ctx->tensor_temp[i*{{ldC}} + j];
-                output += biases_{{name}}_{{idx}}[i];
-                ctx->tensor_temp[i*{{ldC}} + j] = {{{activation_function}}};
+                ctx->tensor_temp[i*{{ldC}}+j] += weight * {{#direct}}*{{/direct}}(ctx->{{B}}[p*{{ldB}}+j]);
             }
         }
+        for(j = 0; j < {{n}}; ++j){
+            register float output = ctx->tensor_temp[i*{{ldC}} + j];
+            output += biases_{{name}}_{{idx}}[i];
+            ctx->tensor_temp[i*{{ldC}} + j] = {{{activation_function}}};
+        }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
index f8fc0c8..a775e1e 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
@@ -6,9 +6,9 @@
             float register sum = 0;
             for (p = 0; p < {{k}}; ++p)
             {
-                sum += {{A}}[p*{{ldA}} +i]* {{#direct}}*{{/direct}}({{B}}[j*{{ldB}}+p]);
+                sum += {{A}}[i*{{ldA}}+p]* {{#direct}}*{{/direct}}(ctx->{{B}}[j*{{ldB}}+p]);
             }
             sum += biases_{{name}}_{{idx}}[i];
-            tensor_temp[i*{{ldC}}+j] = {{{activation_function}}};
+            ctx->tensor_temp[i*{{ldC}}+j] = {{{activation_function}}};
         }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
index 60fd927..769ec86 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
@@ -10,7 +10,7 @@
             {
                 int ii = h * {{strides}} - {{pad_top}} + i_offset * {{dilation_rate}};
                 int jj = w * {{strides}} - {{pad_left}} + j_offset * {{dilation_rate}};
-                int j = w*{{output_height}} + h;
+                int j = h*{{output_width}} + w;
                 if (ii >= 0 && ii < {{input_height}} && jj >= 0 && jj < {{input_width}})
                     ctx->output_{{road}}[j*{{patches_height}} + i] = ctx->{{output_str}}[(c_offset*{{input_height}} + ii)*{{input_width}} + jj];
                 else
-- 
2.43.0


From f8ef540ee82536b87602c4d38245ad304e12052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 04/64] fix: C parameter file of direct_block convolutions
 holds the weights in the layout the code reads

---
 .../generator/layers/convolution/Conv2Ddirect_block.py       | 2 ++
 src/acetone_nnet/generator/neural_network.py                 | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
index f0473fa..f37ca3c 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
@@ -67,6 +67,8 @@ class Conv2Ddirect_block(Conv2D):
         self.block_k = min(64,self.nb_filters) if self.weights.shape[-1]>1 else min(512,self.nb_filters)
         self.block_c = self.input_channels
         self.layout = self.transform_to_6d_blocked_layout()
+        # the generated code reads the transformed weights
+        self.nb_weights = self.count_elements_array(self.layout)
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index eacb50f..1153703 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1175,7 +1175,10 @@ class CodeGenerator(ABC):
 
             if (w := getattr(layer, "weights", None)) is not None:
                 layer_hash["nb_weights"] = layer.nb_weights
-                layer_hash["weights"] = self.flatten_array_order_c(layer.weights)
+                if (layout := getattr(layer, "layout", None)) is not None:
+                    layer_hash["weights"] = self.flatten_array_order_c(layout)
+                else:
+                    layer_hash["weights"] = self.flatten_array_order_c(layer.weights)
 
             if isinstance(layer, ConstantLayer):
                 layer_hash["nb_weights"] = layer.constant.size
-- 
2.43.0


From 7f2d054caaf196a79f64cbd984193e1a4833da26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 05/64] fix: Winograd convolution only for even output sizes,
 its 2x2 tiles would leave the last row or column out

---
 .../generator/layers/convolution/Conv2Ddirect_block.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
index f37ca3c..76d3873 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
@@ -35,7 +35,7 @@ class Conv2Ddirect_block(Conv2D):
         '''
         converts weight shape to layout dedicated to optimized template
         '''
-        even_image = self.input_width%2==0
+        even_image = self.output_height%2==0 and self.output_width%2==0
         K, C, KH, KW = self.weights.shape
         assert C==self.input_channels//self.group
         assert K==self.nb_filters
@@ -112,7 +112,7 @@ class Conv2Ddirect_block(Conv2D):
         elif self.kernel_h==1 and self.kernel_w==1 and self.padding==1:
             tpl = "template_Conv1x1_block.c.tpl"
         #case 3x3, stride 1, even size, winograd
-        elif self.kernel_h==3 and self.kernel_w==3 and self.strides==1 and self.input_width%2==0:
+        elif self.kernel_h==3 and self.kernel_w==3 and self.strides==1 and self.output_height%2==0 and self.output_width%2==0:
             tpl = "template_Conv3x3_winograd.c.tpl"
         else:
             tpl = "template_Conv_direct_block.c.tpl"
-- 
2.43.0


From c3dfbec76ed64d3071e00a7cfda8cad07fecbea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:54 +0000
Subject: [PATCH 06/64] fix: Gemm accepts alpha without beta, and integer alpha
 and beta

---
 src/acetone_nnet/generator/layers/gemm/Gemm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/gemm/Gemm.py b/src/acetone_nnet/generator/layers/gemm/Gemm.py
index e865827..6f2daf2 100644
--- a/src/acetone_nnet/generator/layers/gemm/Gemm.py
+++ b/src/acetone_nnet/generator/layers/gemm/Gemm.py
@@ -96,12 +96,12 @@ class Gemm(Layer):
             msg += "Error: size type in Gemm (size must be int)"
             msg += "\n"
         if self.alpha != [] and (
-            type(self.alpha[0]) is not float and type(self.alpha[0]) is int
+            type(self.alpha[0]) is not float and type(self.alpha[0]) is not int
         ):
             msg += "Error: alpha type in Gemm (alpha must be int or float)"
             msg += "\n"
-        if self.alpha != [] and (
-            type(self.beta[0]) is not float and type(self.beta[0]) is int
+        if self.beta != [] and (
+            type(self.beta[0]) is not float and type(self.beta[0]) is not int
         ):
             msg += "Error: beta type in Gemm (beta must be int or float)"
             msg += "\n"
-- 
2.43.0


From 541e799c8f411fd1f490e42c494b1ef4dd23cec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:23 +0000
Subject: [PATCH 07/64] fix: Gemm broadcasts its bias over the output

---
 src/acetone_nnet/generator/layers/gemm/Gemm.py     |  3 ++-
 .../generator/layers/gemm/GemmDefault.py           | 14 ++++++++++++++
 .../templates/layers/Gemm/template_gemm_nn.c.tpl   |  2 +-
 .../templates/layers/Gemm/template_gemm_nt.c.tpl   |  2 +-
 .../templates/layers/Gemm/template_gemm_tn.c.tpl   |  2 +-
 .../templates/layers/Gemm/template_gemm_tt.c.tpl   |  2 +-
 6 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/gemm/Gemm.py b/src/acetone_nnet/generator/layers/gemm/Gemm.py
index 6f2daf2..a066248 100644
--- a/src/acetone_nnet/generator/layers/gemm/Gemm.py
+++ b/src/acetone_nnet/generator/layers/gemm/Gemm.py
@@ -148,7 +148,8 @@ class Gemm(Layer):
             msg += f"Error: non consistency between output shape and output weight in Gemm ({self.output_width}!={self.weights.shape[1 - self.transpo[1]]})"
             msg += "\n"
         if any(
-            self.biases.shape[i] != 1 and self.biases.shape[i] != output_shape[3 - i]
+            self.biases.shape[-1 - i] != 1
+            and self.biases.shape[-1 - i] != output_shape[3 - i]
             for i in range(len(self.biases.shape))
         ):
             msg = f"Error: biases ({self.biases.shape}) in Gemm not broadcastable to dim ({self.output_height},{self.output_width})"
diff --git a/src/acetone_nnet/generator/layers/gemm/GemmDefault.py b/src/acetone_nnet/generator/layers/gemm/GemmDefault.py
index 4af7e0c..f64ecce 100644
--- a/src/acetone_nnet/generator/layers/gemm/GemmDefault.py
+++ b/src/acetone_nnet/generator/layers/gemm/GemmDefault.py
@@ -42,6 +42,16 @@ class GemmDefault(Gemm):
             (1, 0): self.write_gemm_tn,
         }
 
+    def bias_index(self: Self) -> str:
+        """Index of the bias added to output element (i, j), broadcasting the biases."""
+        shape = (1, 1, *self.biases.shape)
+        terms = []
+        if shape[-2] != 1:
+            terms.append(f"i*{shape[-1]}")
+        if shape[-1] != 1:
+            terms.append("j")
+        return " + ".join(terms) or "0"
+
     # The various ways to compute the operation:
 
     # None of the tensor ar transposed
@@ -69,6 +79,7 @@ class GemmDefault(Gemm):
         )
         mustach_hash["alpha"] = self.alpha
         mustach_hash["beta"] = self.beta
+        mustach_hash["bias_index"] = self.bias_index()
 
         with open(
             self.template_path / "layers" / "Gemm" / "template_gemm_nn.c.tpl"
@@ -101,6 +112,7 @@ class GemmDefault(Gemm):
         )
         mustach_hash["alpha"] = self.alpha
         mustach_hash["beta"] = self.beta
+        mustach_hash["bias_index"] = self.bias_index()
 
         with open(
             self.template_path / "layers" / "Gemm" / "template_gemm_nt.c.tpl"
@@ -133,6 +145,7 @@ class GemmDefault(Gemm):
         )
         mustach_hash["alpha"] = self.alpha
         mustach_hash["beta"] = self.beta
+        mustach_hash["bias_index"] = self.bias_index()
 
         with open(
             self.template_path / "layers" / "Gemm" / "template_gemm_tn.c.tpl"
@@ -165,6 +178,7 @@ class GemmDefault(Gemm):
         )
         mustach_hash["alpha"] = self.alpha
         mustach_hash["beta"] = self.beta
+        mustach_hash["bias_index"] = self.bias_index()
 
         with open(
             self.template_path / "layers" / "Gemm" / "template_gemm_tt.c.tpl"
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl
index 2186fe0..7119269 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl
@@ -8,7 +8,7 @@
             {
                 output += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[(i * {{k}}) + p]*({{B}}[(p * {{n}}) + j]);
             }
-            output += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[j];
+            output += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[{{bias_index}}];
             ctx->tensor_temp[(i * {{n}}) + j] = {{{activation_function}}};
         }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl
index 91d9da8..f61adca 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl
@@ -8,7 +8,7 @@
             {
                 output += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[(i * {{k}}) + p]*({{B}}[(j * {{k}}) + p]);
             }
-            output += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[j];
+            output += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[{{bias_index}}];
             ctx->tensor_temp[i*{{n}}+j] = {{{activation_function}}};
         }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl
index ae27567..bff70e4 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl
@@ -8,7 +8,7 @@
             {
                 output += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[p*{{m}}+i]*{{#direct}}*{{/direct}}({{B}}[p*{{n}}+j]);
             }   
-            output += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[j];
+            output += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[{{bias_index}}];
             ctx->tensor_temp[i*{{n}} + j] = {{{activation_function}}};
         }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl
index 186f4e8..8d22043 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl
@@ -8,7 +8,7 @@
             {
                 sum += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[p*{{m}} +i]*{{#direct}}*{{/direct}}({{B}}[j*{{k}}+p]);
             }
-            sum += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[j];
+            sum += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[{{bias_index}}];
             ctx->tensor_temp[i*{{n}}+j] = {{{activation_function}}};
         }
     }
\ No newline at end of file
-- 
2.43.0


From 8f464173fd052636bceacd4a3efc2ead0293a33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:24 +0000
Subject: [PATCH 08/64] fix: MatMul code shares a single-channel right operand
 between channels

---
 src/acetone_nnet/generator/layers/matmul/MatMulDefault.py | 2 ++
 src/acetone_nnet/templates/layers/template_MatMul.c.tpl   | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py b/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
index 1f3de4b..bddcea4 100644
--- a/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
+++ b/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
@@ -50,6 +50,8 @@ class MatMulDefault(MatMul):
 
         mustach_hash["shared_dimension"] = self.shared_dimension
         mustach_hash["output_channels"] = self.output_channels
+        # A right operand with a single channel is shared by all channels of the left one
+        mustach_hash["channel_right"] = "f" if self.input_shapes[1][1] != 1 else "0"
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
 
diff --git a/src/acetone_nnet/templates/layers/template_MatMul.c.tpl b/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
index 178ca93..3eaf05a 100644
--- a/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
@@ -8,7 +8,7 @@
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = 0;
                 for (k = 0; k < {{shared_dimension}}; ++k)
                 {
-                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] += ctx->{{output_str_left}}[k + {{shared_dimension}}*(i + {{output_height}}*f)]*ctx->{{output_str_right}}[j + {{output_width}}*(k + {{shared_dimension}}*f)];
+                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] += ctx->{{output_str_left}}[k + {{shared_dimension}}*(i + {{output_height}}*f)]*ctx->{{output_str_right}}[j + {{output_width}}*(k + {{shared_dimension}}*{{channel_right}})];
                 }
             }
         }
-- 
2.43.0


From a0b63e7a34e12fd450b794aab04c198f8a3e1ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:25 +0000
Subject: [PATCH 09/64] fix: Winograd code forms no pointer outside its input

---
 .../templates/layers/Conv/template_Conv3x3_winograd.c.tpl      | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl
index 151c83f..9ff5dcb 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl
@@ -18,13 +18,12 @@
                 /* Chargement du bloc 4x4 d'entrée avec gestion du padding sans IF */
                 for(int r = 0; r < 4; ++r) {
                     int ih = oh + r - {{PAD}};
-                    const float* row_ptr = &ctx->{{output_str}}[ih * {{W_in}} * {{C}} + ic];
                     int valid_h = (ih >= 0 && ih < {{H_in}});
                     
                     for(int c = 0; c < 4; ++c) {
                         int iw = ow + c - {{PAD}};
                         int valid_w = (iw >= 0 && iw < {{W_in}});
-                        d[r][c] = (valid_h & valid_w) ? row_ptr[iw * {{C}}] : 0.0f;
+                        d[r][c] = (valid_h & valid_w) ? ctx->{{output_str}}[(ih * {{W_in}} + iw) * {{C}} + ic] : 0.0f;
                     }
                 }
 
-- 
2.43.0


From 71306bbdc10924aa2f52c5d30c7f5d9e7475dae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 10/64] fix: broadcast layers' reference inference broadcasts
 any operand and leaves its inputs unchanged

---
 src/acetone_nnet/generator/layers/broadcast/add/Add.py      | 4 ++--
 .../generator/layers/broadcast/average/Average.py           | 6 +++---
 .../generator/layers/broadcast/divide/Divide.py             | 2 +-
 .../generator/layers/broadcast/maximum/Maximum.py           | 6 +++---
 .../generator/layers/broadcast/minimum/Minimum.py           | 6 +++---
 .../generator/layers/broadcast/multiply/Multiply.py         | 2 +-
 .../generator/layers/broadcast/subtract/Subtract.py         | 2 +-
 7 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/broadcast/add/Add.py b/src/acetone_nnet/generator/layers/broadcast/add/Add.py
index 6e5ba75..22d218b 100644
--- a/src/acetone_nnet/generator/layers/broadcast/add/Add.py
+++ b/src/acetone_nnet/generator/layers/broadcast/add/Add.py
@@ -118,14 +118,14 @@ class Add(Layer):
                 .astype(dtype=getattr(self, "temp_pydtype", input_arrays[0].dtype))
             )
             for i in range(1, len(input_arrays)):
-                output += np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output + np.reshape(input_arrays[i], self.input_shapes[i][1:])
             """ checks that accumulator does not overflow in low precision integer """
             if np.issubdtype(input_arrays[0].dtype,np.integer):
                 out_i64 = (
                     np.copy(input_arrays[0])
                     .reshape(self.input_shapes[0][1:])
                     .astype(dtype=np.int64))
-                out_i64 += np.reshape(input_arrays[i], self.input_shapes[i][1:]).astype(dtype=np.int64)
+                out_i64 = out_i64 + np.reshape(input_arrays[i], self.input_shapes[i][1:]).astype(dtype=np.int64)
                 if (output != out_i64).all():
                     logging.warning("Add integer overflow !!!")
         else:
diff --git a/src/acetone_nnet/generator/layers/broadcast/average/Average.py b/src/acetone_nnet/generator/layers/broadcast/average/Average.py
index befd1f7..0816952 100644
--- a/src/acetone_nnet/generator/layers/broadcast/average/Average.py
+++ b/src/acetone_nnet/generator/layers/broadcast/average/Average.py
@@ -113,9 +113,9 @@ class Average(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
-        output = input_arrays[0]
-        for input_array in input_arrays[1:]:
-            output += input_array
+        output = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+        for i in range(1, len(input_arrays)):
+            output = output + np.reshape(input_arrays[i], self.input_shapes[i][1:])
         return self.activation_function.compute(output / (len(input_arrays)))
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py b/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
index 29f1557..d67a028 100644
--- a/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
+++ b/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
@@ -131,7 +131,7 @@ class Divide(Layer):
         if len(self.previous_layer) > 1:
             output = np.copy(input_arrays[0]).reshape(self.input_shapes[0][1:])
             for i in range(1, len(input_arrays)):
-                output /= np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output / np.reshape(input_arrays[i], self.input_shapes[i][1:])
         else:
             output = np.reshape(input_arrays, self.input_shapes[0][1:])
         return self.activation_function.compute(output / constant)
diff --git a/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py b/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
index d36fe5e..b2c543f 100644
--- a/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
+++ b/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
@@ -124,9 +124,9 @@ class Maximum(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
-        maxi = input_arrays[0]
-        for input_array in input_arrays[1:]:
-            maxi = np.maximum(maxi, input_array)
+        maxi = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+        for i in range(1, len(input_arrays)):
+            maxi = np.maximum(maxi, np.reshape(input_arrays[i], self.input_shapes[i][1:]))
         return self.activation_function.compute(maxi)
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py b/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
index 479c5e0..9c99532 100644
--- a/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
+++ b/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
@@ -124,9 +124,9 @@ class Minimum(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
-        mini = input_arrays[0]
-        for input_array in input_arrays[1:]:
-            mini = np.minimum(mini, input_array)
+        mini = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+        for i in range(1, len(input_arrays)):
+            mini = np.minimum(mini, np.reshape(input_arrays[i], self.input_shapes[i][1:]))
         return self.activation_function.compute(mini)
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py b/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
index 392e569..6f5444c 100644
--- a/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
+++ b/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
@@ -131,7 +131,7 @@ class Multiply(Layer):
         if len(self.previous_layer) > 1:
             output = np.copy(input_arrays[0]).reshape(self.input_shapes[0][1:])
             for i in range(1, len(input_arrays)):
-                output *= np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output * np.reshape(input_arrays[i], self.input_shapes[i][1:])
         else:
             output = np.reshape(input_arrays, self.input_shapes[0][1:])
         return self.activation_function.compute(output * constant)
diff --git a/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py b/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
index db4bde4..e98e39c 100644
--- a/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
+++ b/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
@@ -131,7 +131,7 @@ class Subtract(Layer):
         if len(self.previous_layer) > 1:
             output = np.copy(input_arrays[0]).reshape(self.input_shapes[0][1:])
             for i in range(1, len(input_arrays)):
-                output -= np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output - np.reshape(input_arrays[i], self.input_shapes[i][1:])
         else:
             output = np.reshape(input_arrays, self.input_shapes[0][1:])
         return self.activation_function.compute(output - constant)
-- 
2.43.0


From 55cffb8910dd838eee19d2cf2c8c3dc555bc05a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:10 +0000
Subject: [PATCH 11/64] fix: Maximum, Minimum and Average use their constant
 operand, and a single input as a whole

---
 src/acetone_nnet/generator/layers/broadcast/Broadcast.py  | 2 ++
 .../generator/layers/broadcast/average/Average.py         | 8 +++++++-
 .../generator/layers/broadcast/maximum/Maximum.py         | 5 +++++
 .../generator/layers/broadcast/minimum/Minimum.py         | 5 +++++
 .../templates/layers/template_Broadcast.c.tpl             | 8 +++++++-
 5 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/broadcast/Broadcast.py b/src/acetone_nnet/generator/layers/broadcast/Broadcast.py
index fa48686..3911d0f 100644
--- a/src/acetone_nnet/generator/layers/broadcast/Broadcast.py
+++ b/src/acetone_nnet/generator/layers/broadcast/Broadcast.py
@@ -181,6 +181,8 @@ class Broadcast(Layer):
             constant_dict["cst_channels"] = self.input_shapes[-1][1]
             constant_dict["operator"] = self.specific_operator
             mustach_hash["constant"] = [constant_dict]
+            if self.name == "Average":
+                mustach_hash["prev_size"] += 1
 
         with open(
             self.template_path / "layers" / "template_Broadcast.c.tpl",
diff --git a/src/acetone_nnet/generator/layers/broadcast/average/Average.py b/src/acetone_nnet/generator/layers/broadcast/average/Average.py
index 0816952..f66d626 100644
--- a/src/acetone_nnet/generator/layers/broadcast/average/Average.py
+++ b/src/acetone_nnet/generator/layers/broadcast/average/Average.py
@@ -113,10 +113,16 @@ class Average(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
+        if len(self.previous_layer) == 1:
+            input_arrays = [input_arrays]
         output = np.reshape(input_arrays[0], self.input_shapes[0][1:])
         for i in range(1, len(input_arrays)):
             output = output + np.reshape(input_arrays[i], self.input_shapes[i][1:])
-        return self.activation_function.compute(output / (len(input_arrays)))
+        nb_inputs = len(input_arrays)
+        if self.constant is not None:
+            output = output + np.reshape(self.constant, self.input_shapes[-1][1:])
+            nb_inputs += 1
+        return self.activation_function.compute(output / nb_inputs)
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate inference code."""
diff --git a/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py b/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
index b2c543f..72eda27 100644
--- a/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
+++ b/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
@@ -124,9 +124,14 @@ class Maximum(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
+        if len(self.previous_layer) == 1:
+            input_arrays = [input_arrays]
         maxi = np.reshape(input_arrays[0], self.input_shapes[0][1:])
         for i in range(1, len(input_arrays)):
             maxi = np.maximum(maxi, np.reshape(input_arrays[i], self.input_shapes[i][1:]))
+        if self.constant is not None:
+            constant = np.reshape(self.constant, self.input_shapes[-1][1:])
+            maxi = np.maximum(maxi, constant)
         return self.activation_function.compute(maxi)
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py b/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
index 9c99532..1dc4af6 100644
--- a/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
+++ b/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
@@ -124,9 +124,14 @@ class Minimum(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
+        if len(self.previous_layer) == 1:
+            input_arrays = [input_arrays]
         mini = np.reshape(input_arrays[0], self.input_shapes[0][1:])
         for i in range(1, len(input_arrays)):
             mini = np.minimum(mini, np.reshape(input_arrays[i], self.input_shapes[i][1:]))
+        if self.constant is not None:
+            constant = np.reshape(self.constant, self.input_shapes[-1][1:])
+            mini = np.minimum(mini, constant)
         return self.activation_function.compute(mini)
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/templates/layers/template_Broadcast.c.tpl b/src/acetone_nnet/templates/layers/template_Broadcast.c.tpl
index db12d7c..d97482b 100644
--- a/src/acetone_nnet/templates/layers/template_Broadcast.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Broadcast.c.tpl
@@ -10,15 +10,21 @@
                 {{#broadcast}}
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = fmax(ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)],ctx->{{output_str}}[(j%{{input_width}}) + {{input_width}}*((i%{{input_height}}) + {{input_height}}*(f % {{input_channels}}))]);
                 {{/broadcast}}
+                {{#constant}}
+                ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = fmax(ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)],constant_{{name}}_{{idx}}[(j%{{cst_width}}) + {{cst_width}}*((i%{{cst_height}}) + {{cst_height}}*(f % {{cst_channels}}))]);
+                {{/constant}}
                 {{/max}}
                 {{#min}}
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = ctx->{{output_str0}}[(j%{{input_width0}}) + {{input_width0}}*((i%{{input_height0}}) + {{input_height0}}*(f % {{input_channels0}}))];
                 {{#broadcast}}
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = fmin(ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)],ctx->{{output_str}}[(j%{{input_width}}) + {{input_width}}*((i%{{input_height}}) + {{input_height}}*(f % {{input_channels}}))]);
                 {{/broadcast}}
+                {{#constant}}
+                ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = fmin(ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)],constant_{{name}}_{{idx}}[(j%{{cst_width}}) + {{cst_width}}*((i%{{cst_height}}) + {{cst_height}}*(f % {{cst_channels}}))]);
+                {{/constant}}
                 {{/min}}
                 {{#Average}}
-                ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = ({{#broadcast}}ctx->{{output_str}}[(j%{{input_width}}) + {{input_width}}*((i%{{input_height}}) + {{input_height}}*(f % {{input_channels}}))]{{operator}}{{/broadcast}})/{{prev_size}};
+                ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = ({{#broadcast}}ctx->{{output_str}}[(j%{{input_width}}) + {{input_width}}*((i%{{input_height}}) + {{input_height}}*(f % {{input_channels}}))]{{operator}}{{/broadcast}}{{#constant}}{{operator}}constant_{{name}}_{{idx}}[(j%{{cst_width}}) + {{cst_width}}*((i%{{cst_height}}) + {{cst_height}}*(f % {{cst_channels}}))]{{/constant}})/{{prev_size}};
                 {{/Average}}
                 {{#other}}
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{#broadcast}}ctx->{{output_str}}[(j%{{input_width}}) + {{input_width}}*((i%{{input_height}}) + {{input_height}}*(f % {{input_channels}}))]{{operator}}{{/broadcast}}{{#constant}}{{operator}}constant_{{name}}_{{idx}}[(j%{{cst_width}}) + {{cst_width}}*((i%{{cst_height}}) + {{cst_height}}*(f % {{cst_channels}}))]{{/constant}};
-- 
2.43.0


From 4754d43918b8f450c0ad4c6dc6ee63c2d5f863ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:35 +0000
Subject: [PATCH 12/64] fix: pooling code shifts rows by the top padding and
 columns by the left padding

---
 src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl b/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl
index 5bf6825..2f68a14 100644
--- a/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl
@@ -10,8 +10,8 @@
                 {
                     for (w = 0; w < {{pool_size}}; ++w)
                     {
-                        int ii = i*{{strides}} + h - {{pad_left}};
-                        int jj = j*{{strides}} + w - {{pad_top}};
+                        int ii = i*{{strides}} + h - {{pad_top}};
+                        int jj = j*{{strides}} + w - {{pad_left}};
                         if (ii >= 0 && ii < {{input_height}} && jj >= 0 && jj < {{input_width}})
                         {
                             {{{specific_function}}}
-- 
2.43.0


From 9508d64cadc4747f5ce4d5a96770304af5c0d6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 13/64] fix: channels-last pooling uses the top padding,
 averages over cells inside the input, and applies its activation

---
 .../average_pooling/AveragePooling2DDefault.py      |  2 +-
 .../pooling/max_pooling/MaxPooling2DDefault.py      |  2 +-
 .../templates/layers/template_Pooling2D_HWC.c.tpl   | 13 +++++--------
 3 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py b/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py
index 38575a5..eea6369 100644
--- a/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py
+++ b/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py
@@ -80,7 +80,7 @@ class AveragePooling2DDefault(AveragePooling2D):
             suffix = "_HWC"
             mustach_hash["is_avgpool"] = True
             if self.activation_function.name != "linear":
-                mustach_hash["activation_function"] = self.activation_function.write_activation_str("o_ptr[c]")
+                mustach_hash["activation_function"] = self.activation_function.write_activation_str("out_ptr[c]")
             mustach_hash["specific_function"] = self.specific_function(
             f"f + {self.input_width}*(ii + {self.input_height}*jj)", output_str)
         else:
diff --git a/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py b/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py
index ef83e4b..7554713 100644
--- a/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py
+++ b/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py
@@ -79,7 +79,7 @@ class MaxPooling2DDefault(MaxPooling2D):
             suffix = "_HWC"
             mustach_hash["is_maxpool"] = True
             if self.activation_function.name != "linear":
-                mustach_hash["activation_function"] = self.activation_function.write_activation_str("o_ptr[c]")
+                mustach_hash["activation_function"] = self.activation_function.write_activation_str("out_ptr[c]")
             mustach_hash["specific_function"] = self.specific_function(
             f"f + {self.input_width}*(ii + {self.input_height}*jj)", output_str)
         else:
diff --git a/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl b/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
index cad8b88..f4c38d4 100644
--- a/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
@@ -1,14 +1,10 @@
     // {{name}}_{{idx}}{{comment}} {{#channels_last}}HWC layout{{/channels_last}} {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
     {
-        {{#is_avgpool}}
-        // Calcul de l'aire inverse déplacé au début (invariant)
-        float inv_area = 1.0f / (float)({{pool_size}} * {{pool_size}});
-        {{/is_avgpool}}
         for (int oh = 0; oh < {{output_height}}; ++oh) {
-            int temp_h_start = {{pad_left}} - oh * {{strides}};
+            int temp_h_start = {{pad_top}} - oh * {{strides}};
             int kh_start = (0 > temp_h_start) ? 0 : temp_h_start;
             
-            int temp_h_end = {{input_height}} + {{pad_left}} - oh * {{strides}};
+            int temp_h_end = {{input_height}} + {{pad_top}} - oh * {{strides}};
             int kh_end = ({{pool_size}} < temp_h_end) ? {{pool_size}} : temp_h_end;
 
             for (int ow = 0; ow < {{output_width}}; ++ow) {
@@ -27,7 +23,7 @@
 
                 // Spatial window loops
                 for (int kh = kh_start; kh < kh_end; ++kh) {
-                    int ih = oh * {{strides}} + kh - {{pad_left}};
+                    int ih = oh * {{strides}} + kh - {{pad_top}};
                     for (int kw = kw_start; kw < kw_end; ++kw) {
                         int iw = ow * {{strides}} + kw - {{pad_left}};
                         
@@ -46,7 +42,8 @@
                 }
 
                 {{#is_avgpool}}
-                // Averaging
+                // Averaging over the cells inside the input
+                float inv_area = 1.0f / (float)((kh_end - kh_start) * (kw_end - kw_start));
                 for (int c = 0; c < {{input_channels}}; ++c) {
                     out_ptr[c] *= inv_area;
                 }
-- 
2.43.0


From 0ddb0064cef8d246591b2ff0eb7773fed7735d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 14/64] fix: pooling reference inference takes the padding into
 account and applies the activation

---
 .../generator/layers/pooling/Pooling2D.py         | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/pooling/Pooling2D.py b/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
index 802675f..0b8c70e 100644
--- a/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
+++ b/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
@@ -145,18 +145,13 @@ class Pooling2D(Layer):
 
         output = np.zeros((self.input_channels, self.output_height, self.output_width))
 
-        if self.pad_right and self.pad_left and self.pad_top and self.pad_bottom:
-            input_padded = np.zeros((self.input_channels, self.input_height + self.pad_top + self.pad_bottom,
-                                     self.input_width + self.pad_left + self.pad_right))
-            input_padded[:, self.pad_top:-self.pad_bottom, self.pad_left:-self.pad_right] = input_array
-        else:
-            input_padded = input_array
-
         for c in range(self.input_channels):
             for i in range(self.output_height):
                 for j in range(self.output_width):
+                    # Part of the window inside the input
+                    top = i * self.strides - self.pad_top
+                    left = j * self.strides - self.pad_left
                     output[c, i, j] = self.pooling_function(
-                        input_padded[c, i * self.strides:i * self.strides + self.pool_size,
-                        j * self.strides:j * self.strides + self.pool_size])
+                        input_array[c, max(top, 0):top + self.pool_size, max(left, 0):left + self.pool_size])
 
-        return output
\ No newline at end of file
+        return self.activation_function.compute(output)
\ No newline at end of file
-- 
2.43.0


From 2d568e00d9968d8f6a7a19a81053883e699c3524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:58 +0000
Subject: [PATCH 15/64] fix: reference inference of reduce, gather, resize,
 tile and transpose applies the activation

---
 src/acetone_nnet/generator/layers/gather/Gather.py          | 2 +-
 .../generator/layers/gather_elements/GatherElements.py      | 2 +-
 .../generator/layers/reduce/reduce_max/ReduceMax.py         | 6 +++---
 .../generator/layers/reduce/reduce_mean/ReduceMean.py       | 6 +++---
 .../generator/layers/reduce/reduce_min/ReduceMin.py         | 6 +++---
 .../generator/layers/reduce/reduce_prod/ReduceProd.py       | 6 +++---
 .../generator/layers/reduce/reduce_sum/ReduceSum.py         | 6 +++---
 .../generator/layers/resize/resize_cubic/ResizeCubic.py     | 2 +-
 .../generator/layers/resize/resize_linear/ResizeLinear.py   | 2 +-
 .../generator/layers/resize/resize_nearest/ResizeNearest.py | 2 +-
 src/acetone_nnet/generator/layers/tile/Tile.py              | 2 +-
 src/acetone_nnet/generator/layers/transpose/Transpose.py    | 2 +-
 12 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/gather/Gather.py b/src/acetone_nnet/generator/layers/gather/Gather.py
index 55a87d0..8f08407 100644
--- a/src/acetone_nnet/generator/layers/gather/Gather.py
+++ b/src/acetone_nnet/generator/layers/gather/Gather.py
@@ -130,4 +130,4 @@ class Gather(Layer):
             self.input_channels,
             self.input_height,
             self.input_width)
-        return np.take(input_array, indices=self.indices, axis=self.axis - 1)
\ No newline at end of file
+        return self.activation_function.compute(np.take(input_array, indices=self.indices, axis=self.axis - 1))
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py b/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
index 127a1d6..acd32da 100644
--- a/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
+++ b/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
@@ -155,4 +155,4 @@ class GatherElements(Layer):
                         output[f, i, j] = input_array[f, self.indices[0, f, i, j], j]
                     elif self.axis == 3:
                         output[f, i, j] = input_array[f, i, self.indices[0, f, i, j]]
-        return output
\ No newline at end of file
+        return self.activation_function.compute(output)
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py b/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py
index 4a71509..2608dea 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py
@@ -137,9 +137,9 @@ class ReduceMax(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.max(input_array, axis=None, keepdims=self.keepdims)
-        return np.max(input_array, axis=self.axes, keepdims=self.keepdims)
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(np.max(input_array, axis=None, keepdims=self.keepdims))
+        return self.activation_function.compute(np.max(input_array, axis=self.axes, keepdims=self.keepdims))
 
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py b/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py
index a24ff1b..17bbf06 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py
@@ -119,9 +119,9 @@ class ReduceMean(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.mean(input_array, axis=None, keepdims=self.keepdims)
-        return np.mean(input_array, axis=self.axes, keepdims=self.keepdims)
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(np.mean(input_array, axis=None, keepdims=self.keepdims))
+        return self.activation_function.compute(np.mean(input_array, axis=self.axes, keepdims=self.keepdims))
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py b/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
index 8a864e2..413b0e7 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
@@ -123,6 +123,6 @@ class ReduceMin(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.min(input_array, axis=None, keepdims=self.keepdims)
-        return np.min(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(np.min(input_array, axis=None, keepdims=self.keepdims))
+        return self.activation_function.compute(np.min(input_array, axis=self.axes, keepdims=self.keepdims))
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py b/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
index 881090c..05a0a19 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
@@ -124,6 +124,6 @@ class ReduceProd(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.multiply.reduce(input_array, axis=None, keepdims=self.keepdims)
-        return np.multiply.reduce(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(np.multiply.reduce(input_array, axis=None, keepdims=self.keepdims))
+        return self.activation_function.compute(np.multiply.reduce(input_array, axis=self.axes, keepdims=self.keepdims))
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py b/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
index 66bfbfb..d791707 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
@@ -124,6 +124,6 @@ class ReduceSum(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.add.reduce(input_array, axis=None, keepdims=self.keepdims)
-        return np.add.reduce(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(np.add.reduce(input_array, axis=None, keepdims=self.keepdims))
+        return self.activation_function.compute(np.add.reduce(input_array, axis=self.axes, keepdims=self.keepdims))
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
index eab6b2e..91ea620 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
@@ -99,7 +99,7 @@ class ResizeCubic(Resize):
                                        + coeff2 * self.cubic_interpolation_1_d(input_array, f, x0, y0, x - x0)
                                        + coeff3 * self.cubic_interpolation_1_d(input_array, f, x0, y0 + 1, x - x0)
                                        + coeff4 * self.cubic_interpolation_1_d(input_array, f, x0, y0 + 2, x - x0))
-        return output
+        return self.activation_function.compute(output)
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
diff --git a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
index c980e42..9a35a99 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
@@ -73,4 +73,4 @@ class ResizeLinear(Resize):
                                         + f12 * (x1 - x) * (y - y0) + f22 * (x - x0) * (y - y0))
                                        / ((x1 - x0) * (y1 - y0)))
 
-        return output
+        return self.activation_function.compute(output)
diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
index fdf8b18..59f3a46 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
@@ -89,4 +89,4 @@ class ResizeNearest(Resize):
                     y0 = self.nearest_mode_implem_mapping[self.nearest_mode](y)
 
                     output[f, i, j] = input_array[f, x0, y0]
-        return output
+        return self.activation_function.compute(output)
diff --git a/src/acetone_nnet/generator/layers/tile/Tile.py b/src/acetone_nnet/generator/layers/tile/Tile.py
index af388e9..56d2812 100644
--- a/src/acetone_nnet/generator/layers/tile/Tile.py
+++ b/src/acetone_nnet/generator/layers/tile/Tile.py
@@ -107,4 +107,4 @@ class Tile(Layer):
     ) -> np.ndarray:
         """Compute output of layer."""
         input_array = input_array.reshape((self.input_channels, self.input_height, self.input_width))
-        return np.tile(input_array, self.repeats[1:])
\ No newline at end of file
+        return self.activation_function.compute(np.tile(input_array, self.repeats[1:]))
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/transpose/Transpose.py b/src/acetone_nnet/generator/layers/transpose/Transpose.py
index b29936f..cee3d6c 100644
--- a/src/acetone_nnet/generator/layers/transpose/Transpose.py
+++ b/src/acetone_nnet/generator/layers/transpose/Transpose.py
@@ -117,4 +117,4 @@ class Transpose(Layer):
             input_array,
             (1, self.input_channels, self.input_height, self.input_width),
         )
-        return np.transpose(input_array, self.perm)
\ No newline at end of file
+        return self.activation_function.compute(np.transpose(input_array, self.perm))
\ No newline at end of file
-- 
2.43.0


From 7ae0202df616961e602cd5047d90b6ea4692af9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:59 +0000
Subject: [PATCH 16/64] fix: maximum and minimum over two axes read the layer's
 input, starting from the first reduced element

---
 src/acetone_nnet/generator/layers/reduce/Reduce.py      | 4 ++--
 src/acetone_nnet/templates/layers/template_Reduce.c.tpl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/reduce/Reduce.py b/src/acetone_nnet/generator/layers/reduce/Reduce.py
index 00cb37d..5ed2a48 100644
--- a/src/acetone_nnet/generator/layers/reduce/Reduce.py
+++ b/src/acetone_nnet/generator/layers/reduce/Reduce.py
@@ -229,7 +229,7 @@ class Reduce(Layer):
                 mustach_hash["reduced_dimension_2"] = self.input_width
                 mustach_hash["position"] = f"j + {self.input_width}*(f + {self.input_height}*i)"
                 if self.reduce_func in ("Max", "Min"):
-                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_height}*f]"
+                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_width}*f]"
 
             elif which_dim_to_reduc == "hw":
                 mustach_hash["output_dimension"] = self.output_channels
@@ -237,7 +237,7 @@ class Reduce(Layer):
                 mustach_hash["reduced_dimension_2"] = self.input_width
                 mustach_hash["position"] = f"j + {self.input_width}*(i + {self.input_height}*f)"
                 if self.reduce_func in ("Max", "Min"):
-                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_channels}*f]"
+                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_height * self.input_width}*f]"
 
             if self.reduce_func == "Mean":
                 mustach_hash["nb_elements"] = mustach_hash["reduced_dimension_1"] * mustach_hash["reduced_dimension_2"]
diff --git a/src/acetone_nnet/templates/layers/template_Reduce.c.tpl b/src/acetone_nnet/templates/layers/template_Reduce.c.tpl
index a6f7f1e..ca70a3e 100644
--- a/src/acetone_nnet/templates/layers/template_Reduce.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Reduce.c.tpl
@@ -35,13 +35,13 @@
             for (j = 0; j < {{reduced_dimension_2}}; ++j)
             {
                 {{#Max}}
-                if (ctx->output_{{road}}[{{position}}] > ctx->tensor_temp[f])
+                if (ctx->{{output_str}}[{{position}}] > ctx->tensor_temp[f])
                 {
                     ctx->tensor_temp[f] = ctx->{{output_str}}[{{position}}];
                 }
                 {{/Max}}
                 {{#Min}}
-                if (ctx->output_{{road}}[{{position}}] < ctx->tensor_temp[f])
+                if (ctx->{{output_str}}[{{position}}] < ctx->tensor_temp[f])
                 {
                     ctx->tensor_temp[f] = ctx->{{output_str}}[{{position}}];
                 }
-- 
2.43.0


From 91114e15d880f6fb90ab070509f1d8ffbe528bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:59 +0000
Subject: [PATCH 17/64] fix: a reduction over no axis, or over the batch axis
 alone, copies the layer's input

---
 src/acetone_nnet/generator/layers/reduce/Reduce.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/reduce/Reduce.py b/src/acetone_nnet/generator/layers/reduce/Reduce.py
index 5ed2a48..3949349 100644
--- a/src/acetone_nnet/generator/layers/reduce/Reduce.py
+++ b/src/acetone_nnet/generator/layers/reduce/Reduce.py
@@ -169,10 +169,10 @@ class Reduce(Layer):
             mustach_hash["func"] = "*"
 
         if len(which_dim_to_reduc) == 0:
-            if self.noop_with_empty_axes:
+            if self.noop_with_empty_axes or self.axes != ():
                 mustach_hash["none"] = True
                 mustach_hash["activation_function"] = self.activation_function.write_activation_str(
-                    f"ctx->output_{self.path}[k]")
+                    f"ctx->{output_str}[k]")
             else:
                 mustach_hash["all"] = True
                 mustach_hash["activation_function"] = self.activation_function.write_activation_str("reduced")
-- 
2.43.0


From 0611f0d2c4cb6e978abb9ab3fb34a93d8a3c16aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:21 +0000
Subject: [PATCH 18/64] fix: activations are not fused into layers that cannot
 carry one

---
 .../pattern_matching/patterns/FuseActivationLayers.py         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
index 560173d..52c5f5d 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
@@ -21,7 +21,7 @@
 from typing_extensions import Self
 
 from acetone_nnet.generator.activation_functions import Linear
-from acetone_nnet.generator.layers import ActivationLayer
+from acetone_nnet.generator.layers import ActivationLayer, ConstantLayer, Flatten, InputLayer, Softmax
 from acetone_nnet.ir import Layer
 from acetone_nnet.pattern_matching.Pattern import (
     Pattern,
@@ -58,6 +58,8 @@ class FuseActivationLayer(Pattern):
             return False
         if isinstance(layer.previous_layer[0], ActivationLayer):
             return False
+        if isinstance(layer.previous_layer[0], InputLayer | ConstantLayer | Flatten | Softmax):
+            return False
         if not hasattr(layer.previous_layer[0], "activation_function"):
             return False
         if not isinstance(layer.previous_layer[0].activation_function, Linear):
-- 
2.43.0


From f23210d00bc2b6eb39f7ac0bec40a24cc8a5e940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:53 +0000
Subject: [PATCH 19/64] fix: maximum and minimum over channels and rows start
 from the first reduced element

---
 src/acetone_nnet/generator/layers/reduce/Reduce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/reduce/Reduce.py b/src/acetone_nnet/generator/layers/reduce/Reduce.py
index 3949349..f86c82a 100644
--- a/src/acetone_nnet/generator/layers/reduce/Reduce.py
+++ b/src/acetone_nnet/generator/layers/reduce/Reduce.py
@@ -221,7 +221,7 @@ class Reduce(Layer):
                 mustach_hash["reduced_dimension_2"] = self.input_height
                 mustach_hash["position"] = f"f + {self.input_width}*(j + {self.input_height}*i)"
                 if self.reduce_func in ("Max", "Min"):
-                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_width}*f]"
+                    mustach_hash["starting_value"] = f"ctx->{output_str}[f]"
 
             elif which_dim_to_reduc == "cw":
                 mustach_hash["output_dimension"] = self.output_height
-- 
2.43.0


From f2b477d7ef1789958bf9dd5029bac47a6a049b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 20/64] fix: transpose code handles every permutation, whatever
 the sequence type holding it

---
 .../layers/transpose/TransposeDefault.py        | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/transpose/TransposeDefault.py b/src/acetone_nnet/generator/layers/transpose/TransposeDefault.py
index 866f520..2de2b07 100644
--- a/src/acetone_nnet/generator/layers/transpose/TransposeDefault.py
+++ b/src/acetone_nnet/generator/layers/transpose/TransposeDefault.py
@@ -56,19 +56,12 @@ class TransposeDefault(Transpose):
         mustach_hash["input_height"] = self.input_height
         mustach_hash["input_width"] = self.input_width
 
+        # The index of the output along the axis an input axis is moved to
+        perm = list(self.perm)
         indices = ["Batch", "f", "i", "j"]
-        if self.perm[1:] == [2, 3, 1]:
-            mustach_hash["a"] = indices[self.perm[1]]
-            mustach_hash["b"] = indices[self.perm[3]]
-            mustach_hash["c"] = indices[self.perm[2]]
-        elif self.perm[1:] == [3, 1, 2]:
-            mustach_hash["a"] = indices[self.perm[2]]
-            mustach_hash["b"] = indices[self.perm[1]]
-            mustach_hash["c"] = indices[self.perm[3]]
-        else:
-            mustach_hash["a"] = indices[self.perm[3]]
-            mustach_hash["b"] = indices[self.perm[2]]
-            mustach_hash["c"] = indices[self.perm[1]]
+        mustach_hash["a"] = indices[perm.index(3)]
+        mustach_hash["b"] = indices[perm.index(2)]
+        mustach_hash["c"] = indices[perm.index(1)]
 
         with open(self.template_path / "layers" / "template_Transpose.c.tpl") as template_file:
             template = template_file.read()
-- 
2.43.0


From fd7187abdbe017faa5f7c4b35cac9a5e0d2b7103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 21/64] fix: wrap padding by a whole input size or more stays
 inside the input

---
 .../templates/layers/Pad/template_Wrap_Pad.c.tpl            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl b/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl
index 5bf4f2f..e79b780 100644
--- a/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl
+++ b/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl
@@ -4,7 +4,7 @@
                 }
                 if(f < {{pads_front}})
                 {
-                    new_f = (new_f) % ({{input_channels}}) +  {{input_channels}};
+                    new_f = ((new_f) % ({{input_channels}}) + {{input_channels}}) % ({{input_channels}});
                 }
 
                 if(i >= {{height_and_pad_top}})
@@ -13,7 +13,7 @@
                 }
                 if(i < {{pads_top}})
                 {
-                    new_i = (new_i) % ({{input_height}}) + {{input_height}};
+                    new_i = ((new_i) % ({{input_height}}) + {{input_height}}) % ({{input_height}});
                 }
 
                 if(j >= {{width_and_pad_left}})
@@ -22,5 +22,5 @@
                 }
                 if(j < {{pads_left}})
                 {
-                    new_j = (new_j) % ({{input_width}}) + {{input_width}};
+                    new_j = ((new_j) % ({{input_width}}) + {{input_width}}) % ({{input_width}});
                 }
\ No newline at end of file
-- 
2.43.0


From 0d278060c602b6e4d1a54382eeb21be2efc56c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 22/64] fix: reflect padding code divides by zero when an input
 dimension is 1

---
 .../layers/Pad/template_Reflect_Pad.c.tpl       | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/templates/layers/Pad/template_Reflect_Pad.c.tpl b/src/acetone_nnet/templates/layers/Pad/template_Reflect_Pad.c.tpl
index 639089c..73b7b64 100644
--- a/src/acetone_nnet/templates/layers/Pad/template_Reflect_Pad.c.tpl
+++ b/src/acetone_nnet/templates/layers/Pad/template_Reflect_Pad.c.tpl
@@ -1,3 +1,4 @@
+                {{#channels_max}}
                 new_f = ({{pads_front}} - f) % (2*{{channels_max}});
                 if(new_f < 0)
                 {
@@ -7,7 +8,12 @@
                 {
                     new_f = 2*{{channels_max}} - new_f;
                 }
+                {{/channels_max}}
+                {{^channels_max}}
+                new_f = 0;
+                {{/channels_max}}
 
+                {{#height_max}}
                 new_i = ({{pads_top}} - i) % (2*{{height_max}});
                 if(new_i < 0)
                 {
@@ -17,7 +23,12 @@
                 {
                     new_i = 2*{{height_max}} - new_i;
                 }
+                {{/height_max}}
+                {{^height_max}}
+                new_i = 0;
+                {{/height_max}}
 
+                {{#width_max}}
                 new_j = ({{pads_left}} - j) % (2*{{width_max}});
                 if(new_j < 0)
                 {
@@ -26,4 +37,8 @@
                 if(new_j > {{width_max}})
                 {
                     new_j = 2*{{width_max}} - new_j;
-                }
\ No newline at end of file
+                }
+                {{/width_max}}
+                {{^width_max}}
+                new_j = 0;
+                {{/width_max}}
-- 
2.43.0


From 6fd1bf78b9a712ace7dde7032a63dfbfd43226a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 23/64] fix: flatten reads the tensor its input layer keeps

---
 .../generator/layers/flatten/FlattenDefault.py   | 16 +++++++++++-----
 .../templates/layers/template_Flatten.c.tpl      | 10 ++++++++--
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/flatten/FlattenDefault.py b/src/acetone_nnet/generator/layers/flatten/FlattenDefault.py
index a619314..beb4bd2 100644
--- a/src/acetone_nnet/generator/layers/flatten/FlattenDefault.py
+++ b/src/acetone_nnet/generator/layers/flatten/FlattenDefault.py
@@ -37,18 +37,24 @@ class FlattenDefault(Flatten):
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
+        output_str = self.previous_layer[0].output_str
+
         mustach_hash = {}
 
+        mustach_hash["name"] = self.name
+        mustach_hash["original_name"] = self.original_name
+        mustach_hash["idx"] = f"{self.idx:02d}"
+        mustach_hash["path"] = self.path
+        mustach_hash["output_str"] = output_str
+        mustach_hash["size"] = self.size
+
         if self.data_format == "channels_last":
             mustach_hash["channels_last"] = True
             mustach_hash["input_channels"] = self.input_shape[1]
             mustach_hash["input_height"] = self.input_shape[2]
             mustach_hash["input_width"] = self.input_shape[3]
-            mustach_hash["name"] = self.name
-            mustach_hash["original_name"] = self.original_name
-            mustach_hash["idx"] = f"{self.idx:02d}"
-            mustach_hash["path"] = self.path
-            mustach_hash["size"] = self.size
+        elif output_str != f"output_{self.path}":
+            mustach_hash["copy"] = True
 
         with open(self.template_path / "layers" / "template_Flatten.c.tpl") as template_file:
             template = template_file.read()
diff --git a/src/acetone_nnet/templates/layers/template_Flatten.c.tpl b/src/acetone_nnet/templates/layers/template_Flatten.c.tpl
index c0d2587..41cd40f 100644
--- a/src/acetone_nnet/templates/layers/template_Flatten.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Flatten.c.tpl
@@ -7,7 +7,7 @@
         {
             for (j = 0; j < {{input_width}};  ++j)
             {
-                ctx->tensor_temp[(i*{{input_width}} + j)*{{input_channels}} + f] = ctx->output_{{path}}[(f*{{input_height}} + i)*{{input_width}} + j];
+                ctx->tensor_temp[(i*{{input_width}} + j)*{{input_channels}} + f] = ctx->{{output_str}}[(f*{{input_height}} + i)*{{input_width}} + j];
             }
         }
     }
@@ -15,4 +15,10 @@
     {
         ctx->output_{{path}}[k] = ctx->tensor_temp[k];
     }
-{{/channels_last}}
\ No newline at end of file
+{{/channels_last}}{{#copy}}
+    //{{name}}_{{idx}}  {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
+    for (k = 0; k < {{size}}; ++k)
+    {
+        ctx->output_{{path}}[k] = ctx->{{output_str}}[k];
+    }
+{{/copy}}
\ No newline at end of file
-- 
2.43.0


From 5b99d5f8138b0b9f89bbe21e826fc67ddbc8714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 24/64] fix: Concatenate reference inference takes a single
 input as a whole

---
 src/acetone_nnet/generator/layers/concatenate/Concatenate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/acetone_nnet/generator/layers/concatenate/Concatenate.py b/src/acetone_nnet/generator/layers/concatenate/Concatenate.py
index d49a16f..5313a19 100644
--- a/src/acetone_nnet/generator/layers/concatenate/Concatenate.py
+++ b/src/acetone_nnet/generator/layers/concatenate/Concatenate.py
@@ -138,6 +138,9 @@ class Concatenate(Layer):
             inputs_array: np.ndarray,
     ) -> np.ndarray:
         """Compute output of layer."""
+        if len(self.previous_layer) == 1:
+            # A single input is given as a bare array
+            inputs_array = [inputs_array]
         output = inputs_array[0]
         output = output.reshape(
             self.input_shapes[0][1],
-- 
2.43.0


From f7943e9a2f0376653846eb83d90ba575973dcafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:41 +0000
Subject: [PATCH 25/64] fix: edge, wrap and reflect padding code applies its
 activation once

---
 .../templates/layers/Pad/template_Pad_Non_Constant.c.tpl       | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl b/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl
index 7f732aa..5584388 100644
--- a/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl
+++ b/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl
@@ -12,9 +12,6 @@
                 {{{change_indice}}}
 
                 ctx->tensor_temp[j + {{output_width}} * (i + {{output_height}} * f)] = ctx->{{output_str}}[new_j + {{input_width}} * (new_i + {{input_height}} * new_f)];
-                {{^linear}}
-                ctx->tensor_temp[j + {{output_width}} * (i + {{output_height}} * f)] = {{{activation_function}}};
-                {{/linear}}
                 {{#activation_function}}
                 ctx->tensor_temp[j + {{output_width}} * (i + {{output_height}} * f)] = {{{activation_function}}};
                 {{/activation_function}}
-- 
2.43.0


From 5c06cb3f0d965aa57ac257a5ba6a1d76ed338f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:55 +0000
Subject: [PATCH 26/64] fix: dilation enlarges the window in 'same' padding

---
 src/acetone_nnet/ir/layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/ir/layer.py b/src/acetone_nnet/ir/layer.py
index 5856c45..aa345e0 100644
--- a/src/acetone_nnet/ir/layer.py
+++ b/src/acetone_nnet/ir/layer.py
@@ -127,8 +127,8 @@ class Layer(ABCHasTraits):
         if isinstance(padding, str):
             # Compute 'same' padding tensorflow
 
-            filter_height = kernel_h - (kernel_h - 1) * (dilation_rate - 1)
-            filter_width = kernel_w - (kernel_w - 1) * (dilation_rate - 1)
+            filter_height = kernel_h + (kernel_h - 1) * (dilation_rate - 1)
+            filter_width = kernel_w + (kernel_w - 1) * (dilation_rate - 1)
 
             # The total padding applied along the height and width is computed as:
             if padding in ("VALID", "valid"):
-- 
2.43.0


From 2378bd7e1d02b88c9399c94a4b31d3beae60fad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:43 +0000
Subject: [PATCH 27/64] fix: run the layers that only depend on constants after
 these constants

---
 src/acetone_nnet/graph/graph_interpretor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/graph/graph_interpretor.py b/src/acetone_nnet/graph/graph_interpretor.py
index 0663cf2..a060c61 100644
--- a/src/acetone_nnet/graph/graph_interpretor.py
+++ b/src/acetone_nnet/graph/graph_interpretor.py
@@ -21,7 +21,7 @@
 
 from collections import deque
 
-from acetone_nnet.generator.layers import ConstantLayer
+from acetone_nnet.generator.layers import ConstantLayer, InputLayer
 from acetone_nnet.ir import Layer
 
 
@@ -40,13 +40,15 @@ def tri_topo(dnn: list) -> tuple[list[Layer], int, dict[int, int]]:
         if layer.idx not in visited_layers:
             parcours_prof_topo(sorted_layers, layer, visited_layers)
     # FIX Prevent constants from being mistaken as Input or Output
-    other_layers, constants = [], []
+    inputs, constants, other_layers = [], [], []
     for i in sorted_layers:
         if isinstance(i, ConstantLayer):
             constants.append(i)
+        elif isinstance(i, InputLayer):
+            inputs.append(i)
         else:
             other_layers.append(i)
-    sorted_layers = [other_layers[0]] + constants + other_layers[1:]
+    sorted_layers = inputs + constants + other_layers
     # Allocate temp variable to layers
     assign_liveliness_index(sorted_layers)
     dict_cst = assign_cst(sorted_layers)
-- 
2.43.0


From e8fb6539f09072b294af94183699e9f6c5e50c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 28/64] fix: free the buffer of a layer used twice by its
 consumer only once

---
 src/acetone_nnet/graph/graph_interpretor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/graph/graph_interpretor.py b/src/acetone_nnet/graph/graph_interpretor.py
index a060c61..b6b2b79 100644
--- a/src/acetone_nnet/graph/graph_interpretor.py
+++ b/src/acetone_nnet/graph/graph_interpretor.py
@@ -92,7 +92,7 @@ def assign_liveliness_index(execution_order: list[Layer]) -> dict[int, int]:
     for n in execution_order:
         assert n.idx not in indexes
         # Free the indices of all predecessors' outputs after use
-        for p in n.previous_layer:
+        for p in {p.idx: p for p in n.previous_layer}.values():
             assert p.idx in indexes
             # Check all consumers of a tensor have been executed (except the current one)
             if all(s.idx in indexes for s in p.next_layer if s.idx != n.idx):
@@ -118,7 +118,7 @@ def assign_cst(
     for layer in execution_order:
         visited_layers.add(layer.idx)
         # Free cst if all successors have been visited
-        for parent in layer.previous_layer:
+        for parent in {p.idx: p for p in layer.previous_layer}.values():
             if parent.idx in dict_cst and all(
                 s.idx in visited_layers for s in parent.next_layer
             ):
-- 
2.43.0


From 04f1a94f6793977125cc5f2a4885c9f61188b63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:17 +0000
Subject: [PATCH 29/64] fix: fusing layers keeps identifiers unique and kept
 tensors attached to their layer

---
 src/acetone_nnet/pattern_matching/Pattern.py  | 29 +++++++------------
 .../patterns/FuseActivationLayers.py          |  2 +-
 .../patterns/FuseConvBatchNorm.py             |  2 +-
 .../patterns/FuseMatMulAdd.py                 |  2 +-
 .../patterns/FuseSigmoidMul.py                |  2 +-
 5 files changed, 14 insertions(+), 23 deletions(-)

diff --git a/src/acetone_nnet/pattern_matching/Pattern.py b/src/acetone_nnet/pattern_matching/Pattern.py
index d3e06e2..2a52cc0 100644
--- a/src/acetone_nnet/pattern_matching/Pattern.py
+++ b/src/acetone_nnet/pattern_matching/Pattern.py
@@ -52,29 +52,20 @@ class Pattern(ABC):
         """Apply the pattern to the layer."""
 
 def update_indices(
-        index: int,
+        removed_idx: int,
         layers: list[Layer],
         shift: int,
         dict_cst: dict[int,int],
 ) -> None:
-    """Update the indices of the layers after index by shifting them of shift."""
-    nb_layers = len(layers)
-    ref = layers[index].idx
-
-    if index >= nb_layers:
-        m = f"Index out of bound ({index} > {nb_layers})"
-        raise ValueError(m)
-    if shift > index:
-        m = f"Shift can't superior to the index ({shift} > {index})"
-        raise ValueError(m)
-
-    for i in range(nb_layers):
-        if layers[i].idx > ref:
-            cst_index = dict_cst.get(layers[i].idx, None)
-            if cst_index is not None:
-                dict_cst.pop(layers[i].idx)
-                dict_cst[layers[i].idx - shift] = cst_index
-            layers[i].idx = layers[i].idx - shift
+    """Shift the identifiers following the one of a removed layer."""
+    previous_cst = dict_cst.copy()
+    dict_cst.clear()
+    for layer in layers:
+        cst_index = previous_cst.get(layer.idx, None)
+        if layer.idx > removed_idx:
+            layer.idx = layer.idx - shift
+        if cst_index is not None:
+            dict_cst[layer.idx] = cst_index
 
 def update_next_layers(removed_layer: Layer, replacement_layer:Layer) -> None:
     """Link the layers in removed_layer.next_layer to the replacement_layer as input."""
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
index 52c5f5d..19d63e4 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
@@ -88,7 +88,7 @@ class FuseActivationLayer(Pattern):
 
         # Updating the list of layers
         layers.pop(index)
-        update_indices(index - 1, layers, 1, dict_cst)
+        update_indices(activation_layer.idx, layers, 1, dict_cst)
 
         return self.pattern.format(
             layer.idx,
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
index 5a7daf5..1db76e1 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
@@ -104,7 +104,7 @@ class FuseConvBatchNorm(Pattern):
 
         # Updating the list of layers
         layers.pop(index)
-        update_indices(index - 1, layers, 1, dict_cst)
+        update_indices(batch_norm.idx, layers, 1, dict_cst)
 
         return self.pattern.format(index - 1, index, index - 1), layers.index(conv)
 
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py b/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py
index 8e18e08..6b186e9 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py
@@ -117,7 +117,7 @@ class MatMulAddToDense(Pattern):
         # Updating the list of layers
         layers[index] = dense
         layers.pop(index + 1)
-        update_indices(index, layers, 1, dict_cst)
+        update_indices(add.idx, layers, 1, dict_cst)
 
         return self.pattern.format(index, index + 1, index), layers.index(dense)
 
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py b/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
index 7d4d79a..17f0334 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
@@ -118,7 +118,7 @@ class SigmoidMultiplyToSilu(Pattern):
         # Updating the list of layers
         layers[index] = silu
         layers.remove(multiply)
-        update_indices(index, layers, 1, dict_cst)
+        update_indices(multiply.idx, layers, 1, dict_cst)
 
         return (self.pattern.format(layer.idx, sigmoid.idx, multiply.idx, silu.idx),
                 layers.index(layer))
-- 
2.43.0


From 3d92761fb10b153342cb96fcd3388f51f4b1949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:22 +0000
Subject: [PATCH 30/64] fix: fuse a batch normalisation with the convolution it
 reads, on its own copy of the parameters

---
 .../pattern_matching/patterns/FuseConvBatchNorm.py          | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
index 1db76e1..5a71714 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
@@ -75,11 +75,11 @@ class FuseConvBatchNorm(Pattern):
     ) -> tuple[str, int]:
         """Apply the pattern to the layer."""
         batch_norm: BatchNormalization = layers[index]
-        conv: Conv2D = layers[index - 1]
+        conv: Conv2D = batch_norm.previous_layer[0]
 
         # Retrieve the constant
-        weights: np.array = conv.weights
-        biases = conv.biases
+        weights: np.array = conv.weights.copy()
+        biases = conv.biases.copy()
 
         scale = batch_norm.scale
         bias = batch_norm.biases
-- 
2.43.0


From d8a272cb9e89c36784d6db86468a69c4ec1143b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:26 +0000
Subject: [PATCH 31/64] fix: keep a product's constant and activation when
 fusing a Silu

---
 src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py b/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
index 17f0334..6060f34 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
@@ -61,6 +61,7 @@ class SigmoidMultiplyToSilu(Pattern):
         #   - the previous_layer has exactly two children
         #   - the next layer is a Multiply
         #   - the next layer has exactly two parents
+        #   - the next layer has no constant and no activation function
         #   - the next layer is in previous_layer.next_layer
         if len(layer.previous_layer) != 1:
             return False
@@ -76,6 +77,10 @@ class SigmoidMultiplyToSilu(Pattern):
             return False
         if len(layer.next_layer[0].previous_layer) != 2:
             return False
+        if layer.next_layer[0].constant is not None:
+            return False
+        if not isinstance(layer.next_layer[0].activation_function, Linear):
+            return False
         if layer.next_layer[0] not in layer.previous_layer[0].next_layer:
             return False
 
-- 
2.43.0


From def77172b6c0108e26de9dcfc48a18d765ce9b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:31 +0000
Subject: [PATCH 32/64] fix: allocate output buffers again after fusing layers

---
 src/acetone_nnet/pattern_matching/PatternMatcher.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/acetone_nnet/pattern_matching/PatternMatcher.py b/src/acetone_nnet/pattern_matching/PatternMatcher.py
index 8012c30..f65cbfe 100644
--- a/src/acetone_nnet/pattern_matching/PatternMatcher.py
+++ b/src/acetone_nnet/pattern_matching/PatternMatcher.py
@@ -19,6 +19,7 @@
 ******************************************************************************
 """
 
+from acetone_nnet.graph.graph_interpretor import assign_cst, assign_liveliness_index
 from acetone_nnet.ir import Layer
 from acetone_nnet.pattern_matching.Pattern import Pattern
 
@@ -60,6 +61,14 @@ class PatternMatcher:
                     log += msg
             i += 1
 
+        # The output of a fused layer is needed at other times than the ones it replaces
+        if log:
+            assign_liveliness_index(temp)
+            dict_cst.clear()
+            dict_cst.update(assign_cst(temp))
+            for layer in temp:
+                layer.find_output_str(dict_cst)
+
         return temp, log
 
 pattern_matcher = PatternMatcher()
-- 
2.43.0


From e9e8e01bebb0918806d52be3a84ebd5498799ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:45 +0000
Subject: [PATCH 33/64] fix: the comparison tool reports missing and extra
 values and lines

---
 src/acetone_nnet/cli/compare.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/cli/compare.py b/src/acetone_nnet/cli/compare.py
index 3dc3abb..4b6fc63 100644
--- a/src/acetone_nnet/cli/compare.py
+++ b/src/acetone_nnet/cli/compare.py
@@ -21,6 +21,7 @@
 
 import argparse
 import sys
+from itertools import islice, zip_longest
 from pathlib import Path
 
 import numpy as np
@@ -69,6 +70,10 @@ def compare_lines(
     length = len(values_f1)
     line_comparison = True
 
+    # A missing or extra value is a difference
+    if length != len(values_f2):
+        return False, float("inf"), float("inf")
+
     for j in range(length):
         float_comparison, diff, rel_diff = compare_floats(values_f1[j], values_f2[j])
         line_comparison = float_comparison & line_comparison
@@ -95,11 +100,8 @@ def compare_files(
     max_rel_diff_file = 0.0
     line_comparison = True
 
-    for line_f1, line_f2, line_counter in zip(
-        f1,
-        f2,
-        range(nb_tests + 1),
-        strict=False,
+    for line_counter, (line_f1, line_f2) in enumerate(
+        islice(zip_longest(f1, f2, fillvalue=""), nb_tests + 1),
     ):
         float_comparison, max_diff_line, max_rel_diff_line = (
             compare_lines(line_f1, line_f2, precision)
-- 
2.43.0


From 600714e7697f5aa6c43587c3378cd1bd41b3ebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:45 +0000
Subject: [PATCH 34/64] fix: the comparison tool compares large single
 precision values

---
 src/acetone_nnet/cli/compare.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/acetone_nnet/cli/compare.py b/src/acetone_nnet/cli/compare.py
index 4b6fc63..26e6dee 100644
--- a/src/acetone_nnet/cli/compare.py
+++ b/src/acetone_nnet/cli/compare.py
@@ -34,6 +34,7 @@ def compare_floats(
     abs_th: float = sys.float_info.min,
 ) -> tuple[bool, float, float]:
     """Compare a-b to abs_th."""
+    a, b = float(a), float(b)  # a sum of two large float32 overflows
     diff = abs(a - b)
 
     if a == b:
-- 
2.43.0


From 59c00269bb866187a1ae171c9820e2c5b11e8604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:08 +0000
Subject: [PATCH 35/64] fix: the default implementation of Conv2D can be
 instantiated

---
 src/acetone_nnet/generator/layers/convolution/Conv2D6loops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2D6loops.py b/src/acetone_nnet/generator/layers/convolution/Conv2D6loops.py
index 132f209..784e66f 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2D6loops.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2D6loops.py
@@ -78,7 +78,7 @@ def conv2d_6loops_implementation(
     return Conv2D6loops(
         idx=old_layer.idx,
         original_name=old_layer.original_name,
-        conv_algorithm=conv_algo,
+        conv_algorithm=conv_algo or "6loops",
         size=old_layer.size,
         padding=old_layer.padding,
         strides=old_layer.strides,
-- 
2.43.0


From d7cd3364e992f259f1c0a6c40db86c8ad7d9224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:49 +0000
Subject: [PATCH 36/64] fix: the comparison tool compares the smallest
 subnormal with zero

---
 src/acetone_nnet/cli/compare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/cli/compare.py b/src/acetone_nnet/cli/compare.py
index 26e6dee..35a724b 100644
--- a/src/acetone_nnet/cli/compare.py
+++ b/src/acetone_nnet/cli/compare.py
@@ -41,7 +41,7 @@ def compare_floats(
         return True, diff, 0.0
 
     norm = min((abs(a) + abs(b)), sys.float_info.max)
-    rel_diff = diff / (norm / 2) if norm != 0 else 0.0
+    rel_diff = 2 * (diff / norm) if norm != 0 else 0.0
     if diff < max(abs_th, epsilon * norm):
         return True, diff, rel_diff
 
-- 
2.43.0


From 14b418696a68c6477bf32d58cdb786a968217fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:51 +0000
Subject: [PATCH 37/64] fix: flattening reorders tensors generated in the other
 data format

---
 .../generator/layers/flatten/Flatten.py       |  2 ++
 .../layers/flatten/FlattenDefault.py          |  6 ++++--
 src/acetone_nnet/generator/neural_network.py  |  6 ++++--
 .../templates/layers/template_Flatten.c.tpl   | 21 +++++++++++++++++--
 4 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/flatten/Flatten.py b/src/acetone_nnet/generator/layers/flatten/Flatten.py
index 3b7516b..9846906 100644
--- a/src/acetone_nnet/generator/layers/flatten/Flatten.py
+++ b/src/acetone_nnet/generator/layers/flatten/Flatten.py
@@ -35,6 +35,7 @@ class Flatten(Layer):
             size: int,
             input_shape: list[int],
             data_format: str,
+            gen_data_format: str = "channels_first",
     ) -> None:
         """Build a Flatten layer."""
         super().__init__()
@@ -42,6 +43,7 @@ class Flatten(Layer):
         self.size = size
         self.input_shape = input_shape
         self.data_format = data_format
+        self.gen_data_format = gen_data_format
         self.name = "Flatten"
         if original_name == "":
             self.original_name = f"{self.name}_{self.idx}"
diff --git a/src/acetone_nnet/generator/layers/flatten/FlattenDefault.py b/src/acetone_nnet/generator/layers/flatten/FlattenDefault.py
index beb4bd2..006c75f 100644
--- a/src/acetone_nnet/generator/layers/flatten/FlattenDefault.py
+++ b/src/acetone_nnet/generator/layers/flatten/FlattenDefault.py
@@ -48,8 +48,9 @@ class FlattenDefault(Flatten):
         mustach_hash["output_str"] = output_str
         mustach_hash["size"] = self.size
 
-        if self.data_format == "channels_last":
-            mustach_hash["channels_last"] = True
+        # The layer flattens in the order of data_format a tensor stored in the order of gen_data_format
+        if self.data_format != self.gen_data_format:
+            mustach_hash["to_" + self.data_format] = True
             mustach_hash["input_channels"] = self.input_shape[1]
             mustach_hash["input_height"] = self.input_shape[2]
             mustach_hash["input_width"] = self.input_shape[3]
@@ -75,6 +76,7 @@ def flatten_default_implementation(
         size=old_layer.size,
         input_shape=old_layer.input_shape,
         data_format=old_layer.data_format,
+        gen_data_format=old_layer.gen_data_format,
     )
 
 
diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 1153703..2bae03c 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -65,6 +65,7 @@ from .layers import (
     Conv2DIndirectGemm,
     Conv2DStdGemm,
     Dense,
+    Flatten,
     Gather,
     GatherElements,
     Gemm,
@@ -149,8 +150,9 @@ class CodeGenerator(ABC):
             )
             self.Normalizer = normalizer
 
-        if isinstance(l[0],InputLayer):
-            l[0].gen_data_format = gen_data_format
+        for layer in l:
+            if isinstance(layer, (InputLayer, Flatten)):
+                layer.gen_data_format = gen_data_format
         self.maxpath = maxpath
         self.data_format = data_format
         self.dict_cst = dict_cst
diff --git a/src/acetone_nnet/templates/layers/template_Flatten.c.tpl b/src/acetone_nnet/templates/layers/template_Flatten.c.tpl
index 41cd40f..a27a656 100644
--- a/src/acetone_nnet/templates/layers/template_Flatten.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Flatten.c.tpl
@@ -1,4 +1,4 @@
-{{#channels_last}}
+{{#to_channels_last}}
     //{{name}}_{{idx}}  {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
     // To transforme the tensor in channels_last before entering the 1D layers
     for(f = 0; f < {{input_channels}}; ++f)
@@ -15,7 +15,24 @@
     {
         ctx->output_{{path}}[k] = ctx->tensor_temp[k];
     }
-{{/channels_last}}{{#copy}}
+{{/to_channels_last}}{{#to_channels_first}}
+    //{{name}}_{{idx}}  {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
+    // To transforme the tensor in channels_first before entering the 1D layers
+    for(f = 0; f < {{input_channels}}; ++f)
+    {
+        for (i = 0; i < {{input_height}}; ++i)
+        {
+            for (j = 0; j < {{input_width}};  ++j)
+            {
+                ctx->tensor_temp[(f*{{input_height}} + i)*{{input_width}} + j] = ctx->{{output_str}}[(i*{{input_width}} + j)*{{input_channels}} + f];
+            }
+        }
+    }
+    for (k = 0; k < {{size}}; ++k)
+    {
+        ctx->output_{{path}}[k] = ctx->tensor_temp[k];
+    }
+{{/to_channels_first}}{{#copy}}
     //{{name}}_{{idx}}  {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
     for (k = 0; k < {{size}}; ++k)
     {
-- 
2.43.0


From 4e662f9d8516bdb07dbdaf3fb1754f880431308a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:36 +0000
Subject: [PATCH 38/64] fix: the binary parameter file holds broadcast
 constants, and values of the data type

---
 src/acetone_nnet/generator/neural_network.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 2bae03c..eafef6e 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1149,6 +1149,9 @@ class CodeGenerator(ABC):
                 symtab[f"var_{layer.name}_{layer.idx:02d}"] = layer.var
                 symtab[f"scale_{layer.name}_{layer.idx:02d}"] = layer.scale
 
+            if issubclass(type(layer), Broadcast) and layer.constant is not None:
+                symtab[f"constant_{layer.name}_{layer.idx:02d}"] = layer.constant
+
         def align_up(value, alignment):
             return (value + (alignment - 1)) & ~(alignment - 1)
 
@@ -1158,7 +1161,8 @@ class CodeGenerator(ABC):
                 #print(f"{s} {symtab[s].shape} {symtab[s].dtype}")
                 parameters_bin.seek(align_up(parameters_bin.tell(),self.target_page_size),0)
                 self.symtab += f"--add-symbol {s}=.rodata:{parameters_bin.tell()} "
-                symtab[s].tofile(parameters_bin)
+                # The program reads values of the network's data type
+                symtab[s].astype(self.data_type_py).tofile(parameters_bin)
         logging.info("Generated parameter .dat file.")
 
     def generate_parameter_file(self: Self, output_dir: Path) -> None:
-- 
2.43.0


From 77441c0b48d5be6c4620e614a3df0b6c90e5787c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:31 +0000
Subject: [PATCH 39/64] fix: quantized matrix products are computed in the type
 of their accumulator

---
 src/acetone_nnet/generator/layers/matmul/MatMulDefault.py | 3 +++
 src/acetone_nnet/generator/neural_network.py              | 1 +
 src/acetone_nnet/templates/layers/template_MatMul.c.tpl   | 2 +-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py b/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
index bddcea4..ac63509 100644
--- a/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
+++ b/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
@@ -55,6 +55,9 @@ class MatMulDefault(MatMul):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
 
+        # A quantized product is computed in the type of the accumulator
+        mustach_hash["temp_type"] = getattr(self, "temp_cdtype", None)
+
         mustach_hash["output_str_left"] = self.previous_layer[0].output_str
         mustach_hash["output_str_right"] = self.previous_layer[1].output_str
 
diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index eafef6e..7e3ba6d 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1116,6 +1116,7 @@ class CodeGenerator(ABC):
                     l.qout = layer_qconf["out"]
                     logging.info(f"Quantize {l.name}_{l.idx} format {l.qparam}")
                     l.temp_pydtype = self.target_cfg["quantization"]["temp_pydtype"]
+                    l.temp_cdtype = self.target_cfg["quantization"]["temp_dtype"]
                     l.cdtype = self.target_cfg["quantization"]["dtype"]
 
                 except KeyError:
diff --git a/src/acetone_nnet/templates/layers/template_MatMul.c.tpl b/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
index 3eaf05a..8512047 100644
--- a/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
@@ -8,7 +8,7 @@
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = 0;
                 for (k = 0; k < {{shared_dimension}}; ++k)
                 {
-                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] += ctx->{{output_str_left}}[k + {{shared_dimension}}*(i + {{output_height}}*f)]*ctx->{{output_str_right}}[j + {{output_width}}*(k + {{shared_dimension}}*{{channel_right}})];
+                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] += {{#temp_type}}({{temp_type}}){{/temp_type}}ctx->{{output_str_left}}[k + {{shared_dimension}}*(i + {{output_height}}*f)]*ctx->{{output_str_right}}[j + {{output_width}}*(k + {{shared_dimension}}*{{channel_right}})];
                 }
             }
         }
-- 
2.43.0


From 7a9460a963a91903bb0b748e3a6a4448e5e8a3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:21 +0000
Subject: [PATCH 40/64] fix: import ONNX Conv with optional attributes and
 inputs left out, refuse non-uniform strides

---
 .../importers/ONNX_importer/create_layer.py          | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 7217f56..76be4b6 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -263,6 +263,12 @@ def create_softmax(
     )
 
 
+def _check_uniform(name: str, values: list[int]) -> None:
+    """Refuse an attribute which differs between the spatial axes."""
+    if any(value != values[0] for value in values):
+        raise ValueError(f"Error: {name} must be the same along each axis ({values})\n")
+
+
 # Create a layer Conv
 def create_conv(
     node: onnx.NodeProto,
@@ -295,9 +301,13 @@ def create_conv(
         attributes["auto_pad"] = attributes["auto_pad"].decode()
     if "strides" not in attributes:
         attributes["strides"] = [1, 1]
+    if "kernel_shape" not in attributes:
+        attributes["kernel_shape"] = list(initializers[0].dims[2:])
+    _check_uniform("strides", attributes["strides"])
+    _check_uniform("dilations", attributes["dilations"])
 
     initializers_length = 2
-    if len(initializers) == initializers_length:
+    if len(initializers) == initializers_length and initializers[1]:
         biases = onnx.numpy_helper.to_array(initializers[1])
     else:
         biases = np.zeros(output_shape[1])
-- 
2.43.0


From 42816db4d088859d7e005b270de4dfbbc8764bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:21 +0000
Subject: [PATCH 41/64] fix: refuse ONNX pooling attributes that pooling layers
 do not implement

---
 .../importers/ONNX_importer/create_layer.py    | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 76be4b6..c6e277d 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1053,6 +1053,16 @@ def create_reduce_prod(
 ### Pooling layers ###
 
 
+def _check_pooling(attributes: dict[str, Any]) -> None:
+    """Refuse the attributes which the pooling layers do not implement."""
+    _check_uniform("strides", attributes["strides"])
+    _check_uniform("kernel_shape", attributes["kernel_shape"])
+    if any(dilation != 1 for dilation in attributes["dilations"]):
+        raise ValueError("Error: dilations are not supported in pooling layers\n")
+    if attributes.get("ceil_mode", 0):
+        raise ValueError("Error: ceil_mode is not supported in pooling layers\n")
+
+
 # Create a layer MaxPool
 def create_max_pool(
     node: onnx.NodeProto,
@@ -1079,6 +1089,7 @@ def create_max_pool(
         attributes["auto_pad"] = attributes["auto_pad"].decode()
     if "strides" not in attributes:
         attributes["strides"] = [1, 1]
+    _check_pooling(attributes)
     return MaxPooling2D(
         original_name=node.name,
         idx=idx,
@@ -1118,6 +1129,12 @@ def create_average_pool(
         attributes["auto_pad"] = attributes["auto_pad"].decode()
     if "strides" not in attributes:
         attributes["strides"] = [1, 1]
+    _check_pooling(attributes)
+    if attributes.get("count_include_pad", 0) and attributes["auto_pad"] not in (
+        "VALID",
+        [0, 0, 0, 0],
+    ):
+        raise ValueError("Error: count_include_pad is not supported in AveragePool\n")
     return AveragePooling2D(
         original_name=node.name,
         idx=idx,
@@ -1145,6 +1162,7 @@ def create_global_average_pool(
     size = find_size(output_shape)
     dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
+    _check_uniform("input size", input_shape[2:])
     return AveragePooling2D(
         original_name=node.name,
         idx=idx,
-- 
2.43.0


From ade933ec03f93485ce9c58b8182b030521656d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:21 +0000
Subject: [PATCH 42/64] fix: import ONNX Gather with negative indices, or the
 default axis of a tensor of rank < 4

---
 .../importers/ONNX_importer/create_layer.py   | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index c6e277d..3c9bf38 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -507,15 +507,17 @@ def create_gather(
     attributes = extract_attributes(node)
     indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
     if "axis" not in attributes:
-        attributes["axis"] = 0
+        attributes["axis"] = len(input_shape) - original_len_shape
     elif attributes["axis"] < 0:
         attributes["axis"] = len(input_shape) + attributes["axis"]
     else:
         attributes["axis"] = len(input_shape) + attributes["axis"] - original_len_shape
     # Adjust indices to positive values from [-s, s-1] to [0, s]
-    for i in np.ndindex(indices.shape):
-        if indices[i] < 0:
-            indices[i] = input_shape[attributes["axis"]] - abs(indices[i])
+    indices = np.where(
+        indices < 0,
+        indices + input_shape[attributes["axis"]],
+        indices,
+    )
     return Gather(
         original_name=node.name,
         idx=idx,
@@ -546,15 +548,17 @@ def create_gather_elements(
     attributes = extract_attributes(node)
     indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
     if "axis" not in attributes:
-        attributes["axis"] = 0
+        attributes["axis"] = len(input_shape) - original_len_shape
     elif attributes["axis"] < 0:
         attributes["axis"] = len(input_shape) + attributes["axis"]
     else:
         attributes["axis"] = len(input_shape) + attributes["axis"] - original_len_shape
     # Adjust indices to positive values from [-s, s-1] to [0, s]
-    for i in np.ndindex(indices.shape):
-        if indices[i] < 0:
-            indices[i] = input_shape[attributes["axis"]] - abs(indices[i])
+    indices = np.where(
+        indices < 0,
+        indices + input_shape[attributes["axis"]],
+        indices,
+    )
     while len(indices.shape) < len(output_shape):
         indices = np.expand_dims(indices, axis=0)
     return GatherElements(
-- 
2.43.0


From 8fa24c6bbf17ac701d1ad595d0640c1faddb73f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:21 +0000
Subject: [PATCH 43/64] fix: import ONNX Gemm without C

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 3c9bf38..393fffb 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -589,10 +589,10 @@ def create_gemm(
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     b_tensor = look_for_initializer(node.input[1], model)
-    if len(node.input) == 3:  # noqa: PLR2004
-        c_tensor = look_for_initializer(node.input[2], model)
+    if len(node.input) == 3 and node.input[2]:  # noqa: PLR2004
+        bias = onnx.numpy_helper.to_array(look_for_initializer(node.input[2], model))
     else:
-        c_tensor = np.zeros((1, 1))
+        bias = np.zeros((1, 1))
     if "transA" not in attributes:
         attributes["transA"] = 0
     if "transB" not in attributes:
@@ -610,7 +610,7 @@ def create_gemm(
         transA=attributes["transA"],
         transB=attributes["transB"],
         weights=onnx.numpy_helper.to_array(b_tensor),
-        bias=onnx.numpy_helper.to_array(c_tensor),
+        bias=bias,
         input_shape=input_shape,
         output_shape=output_shape,
         activation_function=Linear(),
-- 
2.43.0


From ea4cbe11537c35b85df53c81098d95fa807685ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:21 +0000
Subject: [PATCH 44/64] fix: import ONNX Pad with default mode and value, with
 axes and on tensors of rank < 4

---
 .../importers/ONNX_importer/create_layer.py   | 35 ++++++++++++-------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 393fffb..1e27362 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -466,24 +466,33 @@ def create_pad(
     ]
     attributes = extract_attributes(node)
 
-    initializer_length = 2
-    if len(initializers) == initializer_length:
-        axes = []
+    input_rank = len(get_shape(node.input[0], model, extend=False))
+    # Optional inputs, in order: pads, constant_value, axes
+    initializers += [[] for _ in range(3 - len(initializers))]
+    given_pads = list(map(int, onnx.numpy_helper.to_array(initializers[0])))
+    if any(pad < 0 for pad in given_pads):
+        raise ValueError(f"Error: negative pads are not supported ({given_pads})\n")
+    if initializers[2]:
+        axes = onnx.numpy_helper.to_array(initializers[2]).tolist()
     else:
-        axes = onnx.numpy_helper.to_array(initializers[2])
-        for i in range(len(axes)):
-            axe = axes[i]
-            if axe < 0:
-                axe = len(input_shape) - axe
-            axes[i] = axe
+        axes = list(range(input_rank))
+    # Amounts along every axis of the extended shape
+    pads = [0] * (2 * len(input_shape))
+    for i, axe in enumerate(axes):
+        extended_axe = axe % input_rank + len(input_shape) - input_rank
+        pads[extended_axe] = given_pads[i]
+        pads[extended_axe + len(input_shape)] = given_pads[i + len(axes)]
+    constant_value = (
+        float(onnx.numpy_helper.to_array(initializers[1])) if initializers[1] else 0.0
+    )
     return create_pad_obj(
-        mode=attributes["mode"],
+        mode=attributes.get("mode", b"constant"),
         original_name=node.name,
         idx=idx,
         size=size,
-        pads=list(map(int, onnx.numpy_helper.to_array(initializers[0]))),
-        constant_value=float(onnx.numpy_helper.to_array(initializers[1])),
-        axes=axes,
+        pads=pads,
+        constant_value=constant_value,
+        axes=[],
         input_shape=list(map(int, input_shape)),
         activation_function=Linear(),
     )
-- 
2.43.0


From 23d4e62658842db101aa6ed33e8037dcf635b376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:21 +0000
Subject: [PATCH 45/64] fix: ONNX Tile and reductions read one input, whatever
 the length of its name

---
 .../importers/ONNX_importer/create_layer.py          | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 1e27362..17840c6 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -774,7 +774,7 @@ def create_tile(
     input_shape = get_shape(node.input[0], model)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     repeats = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
     repeats = [int(rep) for rep in repeats]
@@ -807,7 +807,7 @@ def create_reduce_sum(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
@@ -861,7 +861,7 @@ def create_reduce_max(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
@@ -915,7 +915,7 @@ def create_reduce_min(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
@@ -969,7 +969,7 @@ def create_reduce_mean(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
@@ -1023,7 +1023,7 @@ def create_reduce_prod(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
-- 
2.43.0


From 4a181eaca84b956b927426f029ac8ad2e57dedf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:21 +0000
Subject: [PATCH 46/64] fix: import ONNX Transpose of tensors of rank < 4, and
 with the default permutation

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 17840c6..ab6ffb6 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -753,12 +753,17 @@ def create_transpose(
     dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
+    # Adjust the permutation to the extended shape
+    input_rank = len(get_shape(node.input[0], model, extend=False))
+    offset = len(input_shape) - input_rank
+    perm = attributes.get("perm", list(reversed(range(input_rank))))
+    perm = list(range(offset)) + [offset + axe for axe in perm]
     return Transpose(
         original_name=node.name,
         idx=idx,
         size=size,
         input_shape=input_shape,
-        perm=attributes["perm"],
+        perm=perm,
         activation_function=Linear(),
     )
 
-- 
2.43.0


From 2b4f66d4dbdf91edd074b0306db0be06e04d67ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:09 +0000
Subject: [PATCH 47/64] fix: the version of the default operator set may not be
 the first one imported

---
 .../importers/ONNX_importer/create_layer.py   | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index ab6ffb6..4fc4bea 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -135,6 +135,14 @@ def extract_attributes(node: onnx.NodeProto) -> dict[str, Any]:
     return attributes
 
 
+def get_opset_version(model: onnx.ModelProto) -> int:
+    """Find the version of the default operator set."""
+    for opset in model.opset_import:
+        if opset.domain in ("", "ai.onnx"):
+            return opset.version
+    raise ValueError("Error: the model does not import the default operator set\n")
+
+
 # Find the shape of shape_name in model (an onnx model)
 # Depend on the characteristics of the model. Need value_info in the model
 def get_shape(
@@ -245,7 +253,7 @@ def create_softmax(
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if "axis" not in attributes:
-        if model.opset_import[0].version < onnx_version_change_implementation:
+        if get_opset_version(model) < onnx_version_change_implementation:
             attributes["axis"] = 1
         else:
             attributes["axis"] = len(output_shape) - 1
@@ -815,7 +823,7 @@ def create_reduce_sum(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    if model.opset_import[0].version < onnx_version_change_implementation:
+    if get_opset_version(model) < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
@@ -869,7 +877,7 @@ def create_reduce_max(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    if model.opset_import[0].version < onnx_version_change_implementation:
+    if get_opset_version(model) < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
@@ -923,7 +931,7 @@ def create_reduce_min(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    if model.opset_import[0].version < onnx_version_change_implementation:
+    if get_opset_version(model) < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
@@ -977,7 +985,7 @@ def create_reduce_mean(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    if model.opset_import[0].version < onnx_version_change_implementation:
+    if get_opset_version(model) < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
@@ -1031,7 +1039,7 @@ def create_reduce_prod(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    if model.opset_import[0].version < onnx_version_change_implementation:
+    if get_opset_version(model) < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-- 
2.43.0


From 9a9320abe4a445b76aea70ee2176074497d13df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:09 +0000
Subject: [PATCH 48/64] fix: the axes of ONNX Softmax before version 13, and of
 tensors of rank < 4

---
 .../importers/ONNX_importer/create_layer.py      | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 4fc4bea..e307990 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -252,15 +252,15 @@ def create_softmax(
     dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
+    coerces_to_2d = get_opset_version(model) < onnx_version_change_implementation
     if "axis" not in attributes:
-        if get_opset_version(model) < onnx_version_change_implementation:
-            attributes["axis"] = 1
-        else:
-            attributes["axis"] = len(output_shape) - 1
-    elif attributes["axis"] < 0:
-        attributes["axis"] = len(output_shape) + attributes["axis"]
-    else:
-        attributes["axis"] = 4 + attributes["axis"] - len(input_shape)
+        attributes["axis"] = 1 if coerces_to_2d else -1
+    if attributes["axis"] < 0:
+        attributes["axis"] = len(input_shape) + attributes["axis"]
+    if coerces_to_2d and find_size(input_shape[attributes["axis"] + 1:]) != 1:
+        # These versions normalise over all the axes from the given one on
+        raise ValueError("Error: Softmax over several axes is not supported\n")
+    attributes["axis"] = 4 + attributes["axis"] - len(input_shape)
 
     return Softmax(
         original_name=node.name,
-- 
2.43.0


From dcfcf98c82013713a5f26c3ddae342a0443c3a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:09 +0000
Subject: [PATCH 49/64] fix: the axes of ONNX reductions given as an attribute,
 left out, or stored read-only

---
 .../importers/ONNX_importer/create_layer.py   | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index e307990..07dac2e 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -827,7 +827,7 @@ def create_reduce_sum(
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -835,10 +835,10 @@ def create_reduce_sum(
             attributes["keepdims"] = 1
         if "noop_with_empty_axes" not in attributes:
             attributes["noop_with_empty_axes"] = 0
-        if len(node.input) == is_axes:
+        if len(node.input) == is_axes and node.input[1]:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).tolist()
         else:
             attributes["axes"] = []
 
@@ -881,7 +881,7 @@ def create_reduce_max(
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -889,10 +889,10 @@ def create_reduce_max(
             attributes["keepdims"] = 1
         if "noop_with_empty_axes" not in attributes:
             attributes["noop_with_empty_axes"] = 0
-        if len(node.input) == is_axes:
+        if len(node.input) == is_axes and node.input[1]:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).tolist()
         else:
             attributes["axes"] = []
 
@@ -935,7 +935,7 @@ def create_reduce_min(
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -943,10 +943,10 @@ def create_reduce_min(
             attributes["keepdims"] = 1
         if "noop_with_empty_axes" not in attributes:
             attributes["noop_with_empty_axes"] = 0
-        if len(node.input) == is_axes:
+        if len(node.input) == is_axes and node.input[1]:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).tolist()
         else:
             attributes["axes"] = []
 
@@ -989,7 +989,7 @@ def create_reduce_mean(
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -997,10 +997,10 @@ def create_reduce_mean(
             attributes["keepdims"] = 1
         if "noop_with_empty_axes" not in attributes:
             attributes["noop_with_empty_axes"] = 0
-        if len(node.input) == is_axes:
+        if len(node.input) == is_axes and node.input[1]:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).tolist()
         else:
             attributes["axes"] = []
 
@@ -1043,7 +1043,7 @@ def create_reduce_prod(
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -1051,10 +1051,10 @@ def create_reduce_prod(
             attributes["keepdims"] = 1
         if "noop_with_empty_axes" not in attributes:
             attributes["noop_with_empty_axes"] = 0
-        if len(node.input) == is_axes:
+        if len(node.input) == is_axes and node.input[1]:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).tolist()
         else:
             attributes["axes"] = []
 
-- 
2.43.0


From d7c45af80756b0e169291f5048540d3bff329afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:09 +0000
Subject: [PATCH 50/64] fix: ONNX Sub and Div by an initializer, and
 initializers holding neutral elements

---
 .../importers/ONNX_importer/create_layer.py   | 90 ++++++-------------
 1 file changed, 28 insertions(+), 62 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 07dac2e..eee69ea 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1219,6 +1219,31 @@ def _collect_node_inputs(
     return collected
 
 
+def _extend_shape(shape: tuple[int, ...]) -> list[int]:
+    """Extend a shape to four dimensions."""
+    return [1 for _i in range(4 - len(shape))] + list(shape)
+
+
+def _split_constant(
+    model: onnx.ModelProto,
+    node: onnx.NodeProto,
+) -> tuple[list[str], np.ndarray, np.ndarray | None]:
+    """Separate the last operand of a node, if it is an initializer, from the others.
+
+    The layer holds it as its constant. The operands are returned in order, with the
+    shapes of all the operands.
+    """
+    inputs = _collect_node_inputs(model, node)
+    names = [name for name, _shape in inputs]
+    input_shapes = [_extend_shape(shape) for _name, shape in inputs]
+    constant = None
+    last = look_for_initializer(names[-1], model)
+    if last and len(names) > 1:
+        constant = onnx.numpy_helper.to_array(last).reshape(input_shapes[-1])
+        names.pop()
+    return names, np.array(input_shapes), constant
+
+
 # create a layer Add
 def create_add(
     node: onnx.NodeProto,
@@ -1258,31 +1283,10 @@ def create_div(
     model: onnx.ModelProto,
 ) -> Divide:
     """Create a Divide layer."""
-    constant_length = 4
-
-    input_shapes = []
-    constant = np.ones(get_shape(node.input[0], model))
-    dict_input[idx] = []
-    for input_value in node.input:
-        factor = look_for_initializer(input_value, model)
-        if factor:
-            constant = constant / onnx.numpy_helper.to_array(factor)
-        else:
-            dict_input[idx].append(input_value)
-            input_shapes.append(get_shape(input_value, model))
-
+    dict_input[idx], input_shapes, constant = _split_constant(model, node)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_output[node.output[0]] = idx
-    # FIXME It seems like a test is missing here on the values of constant
-    if (constant != np.ones(constant.shape)).all():
-        if len(constant.shape) < constant_length:
-            for _i in range(4 - len(constant.shape)):
-                constant = np.expand_dims(constant, axis=0)
-        input_shapes.append(list(constant.shape))
-    else:
-        constant = None
-    input_shapes = np.array(input_shapes)
     return Divide(
         original_name=node.name,
         idx=idx,
@@ -1303,29 +1307,10 @@ def create_mul(
     model: onnx.ModelProto,
 ) -> Multiply:
     """Create Multiply layer."""
-    constant_length = 4
-
-    input_shapes = []
-    constant = np.ones(get_shape(node.input[0], model))
-    dict_input[idx] = []
-    for input_value in node.input:
-        factor = look_for_initializer(input_value, model)
-        if factor:
-            constant = constant * onnx.numpy_helper.to_array(factor)
-        else:
-            dict_input[idx].append(input_value)
-            input_shapes.append(get_shape(input_value, model))
+    dict_input[idx], input_shapes, constant = _split_constant(model, node)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_output[node.output[0]] = idx
-    if (constant != np.ones(constant.shape)).all():
-        if len(constant.shape) < constant_length:
-            for _i in range(4 - len(constant.shape)):
-                constant = np.expand_dims(constant, axis=0)
-        input_shapes.append(list(constant.shape))
-    else:
-        constant = None
-    input_shapes = np.array(input_shapes)
     return Multiply(
         original_name=node.name,
         idx=idx,
@@ -1346,29 +1331,10 @@ def create_sub(
     model: onnx.ModelProto,
 ) -> Subtract:
     """Create a Subtract layer."""
-    constant_length = 4
-
-    input_shapes = []
-    constant = np.zeros(get_shape(node.input[0], model))
-    dict_input[idx] = []
-    for input_value in node.input:
-        factor = look_for_initializer(input_value, model)
-        if factor:
-            constant = constant - onnx.numpy_helper.to_array(factor)
-        else:
-            dict_input[idx].append(input_value)
-            input_shapes.append(get_shape(input_value, model))
+    dict_input[idx], input_shapes, constant = _split_constant(model, node)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_output[node.output[0]] = idx
-    if (constant != np.zeros(constant.shape)).all():
-        if len(constant.shape) < constant_length:
-            for _i in range(4 - len(constant.shape)):
-                constant = np.expand_dims(constant, axis=0)
-        input_shapes.append(list(constant.shape))
-    else:
-        constant = None
-    input_shapes = np.array(input_shapes)
     return Subtract(
         original_name=node.name,
         idx=idx,
-- 
2.43.0


From 0dfcb6bbe1aa722ab7f58eddae87505301c2b6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:09 +0000
Subject: [PATCH 51/64] fix: import ONNX Mean, and Max, Min and Mean of
 initializers

---
 .../importers/ONNX_importer/create_layer.py   | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index eee69ea..ce45fa2 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1355,9 +1355,9 @@ def create_max(
     model: onnx.ModelProto,
 ) -> Maximum:
     """Create a Max layer."""
-    input_shapes = []
-    for input_value in node.input:
-        input_shapes.append(get_shape(input_value, model))
+    input_shapes = [
+        _extend_shape(shape) for _name, shape in _collect_node_inputs(model, node)
+    ]
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_input[idx] = node.input
@@ -1381,9 +1381,9 @@ def create_min(
     model: onnx.ModelProto,
 ) -> Minimum:
     """Create a Min layer."""
-    input_shapes = []
-    for input_value in node.input:
-        input_shapes.append(get_shape(input_value, model))
+    input_shapes = [
+        _extend_shape(shape) for _name, shape in _collect_node_inputs(model, node)
+    ]
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_input[idx] = node.input
@@ -1407,9 +1407,9 @@ def create_avg(
     model: onnx.ModelProto,
 ) -> Average:
     """Create an Average layer."""
-    input_shapes = []
-    for input_value in node.input:
-        input_shapes.append(get_shape(input_value, model))
+    input_shapes = [
+        _extend_shape(shape) for _name, shape in _collect_node_inputs(model, node)
+    ]
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_input[idx] = node.input
@@ -1418,7 +1418,7 @@ def create_avg(
         original_name=node.name,
         idx=idx,
         size=size,
-        input_shapes=input_shapes,
+        input_shapes=np.array(input_shapes),
         output_shape=output_shape,
         activation_function=Linear(),
     )
-- 
2.43.0


From bd70046989a06d2c02c9929539ccb4e833d809aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:09 +0000
Subject: [PATCH 52/64] fix: ONNX Clip with bounds left out, or given as
 scalars or attributes

---
 .../importers/ONNX_importer/create_layer.py   | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index ce45fa2..b9c42e8 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1424,6 +1424,21 @@ def create_avg(
     )
 
 
+def _clip_bounds(
+        node: onnx.NodeProto,
+        model: onnx.ModelProto,
+) -> tuple[float, float]:
+    """Find the maximum and minimum of a Clip node, given as attributes or inputs."""
+    attributes = extract_attributes(node)
+    bounds = [attributes.get("min", -np.inf), attributes.get("max", np.inf)]
+    for i, name in enumerate(node.input[1:]):
+        if name:
+            bounds[i] = float(
+                onnx.numpy_helper.to_array(look_for_initializer(name, model)).item(),
+            )
+    return bounds[1], bounds[0]
+
+
 def instantiate_activation_layer(
         node: onnx.NodeProto,
         model: onnx.ModelProto,
@@ -1446,12 +1461,7 @@ def instantiate_activation_layer(
                 attribute["alpha"] = 0.01
             return LeakyReLu(attribute["alpha"])
         case "Clip":
-            mini, maxi = float("-inf"), float("inf")
-            if node.input[1]:
-                mini = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))[0]
-            if node.input[2]:
-                maxi = onnx.numpy_helper.to_array(look_for_initializer(node.input[2], model))[0]
-            return Clip(maxi,mini)
+            return Clip(*_clip_bounds(node, model))
         case _:
             return None
 
@@ -1618,11 +1628,7 @@ def fuse_clip(
     layers: list,
 ) -> None:
     """Fuse the activation layer Clip with the prior layer."""
-    mini, maxi = float("-inf"), float("inf")
-    if node.input[1]:
-        mini = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))[0]
-    if node.input[2]:
-        maxi = onnx.numpy_helper.to_array(look_for_initializer(node.input[2], model))[0]
+    maxi, mini = _clip_bounds(node, model)
     layers[dict_output[node.input[0]]].activation_function = Clip(
         max_value=maxi,
         min_value=mini,
-- 
2.43.0


From ea11b1cb6b02c84787dfed0c7df28a33e083270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:41 +0000
Subject: [PATCH 53/64] fix: the input of a bypassed ONNX node may have other
 consumers

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index b9c42e8..9139d03 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1536,7 +1536,7 @@ def bypass(
     model: onnx.ModelProto,
 ) -> None:
     """Bypass the layer (output=input)."""
-    dict_output[node.output[0]] = dict_output.pop(node.input[0])
+    dict_output[node.output[0]] = dict_output[node.input[0]]
 
 
 def create_initializer(
-- 
2.43.0


From e827cdc2d10a29e82acd5bf2b7f2f4f1acdb9c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:41 +0000
Subject: [PATCH 54/64] fix: ONNX Constant nodes keep their shape and typed
 values

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 3 +--
 src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py  | 1 +
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 9139d03..11f3b20 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1546,9 +1546,8 @@ def create_initializer(
 ) -> None:
     """Change a constant layer into an initializer."""
     const = model.graph.initializer.add()
+    const.CopyFrom(node.attribute[0].t)
     const.name = node.output[0]
-    const.data_type = node.attribute[0].t.data_type
-    const.raw_data = node.attribute[0].t.raw_data
 
 
 ###### Dict of all the functions ######
diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index aaecadb..d02c6c0 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -119,6 +119,7 @@ def load_onnx(
         elif node.op_type in unused_layers:
             # If the node is a layer only used in training, layer_input=layer_output
             unused_layers[node.op_type](node, dict_output, model)
+            init_dict = {i.name: i for i in model.graph.initializer}
         elif node.op_type in activation_layers:
             activation_layers[node.op_type](node, dict_output, model, layers)
         else:
-- 
2.43.0


From f0d9e43dfb97eb99612e192838d22a8360a53cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:41 +0000
Subject: [PATCH 55/64] fix: ONNX initializers with a default listed as graph
 inputs are not inputs of the network

---
 src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index d02c6c0..fa8aa7a 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -86,12 +86,14 @@ def load_onnx(
     idx = 0
 
     # Creating and adding all the input layers to the list
+    init_dict = {i.name: i for i in model.graph.initializer}
     for i in model.graph.input:
+        if i.name in init_dict:
+            continue
         layers.append(create_input_layer(i, idx, dict_output))
         idx += 1
 
     # Create constant for all initializers
-    init_dict = {i.name:i for i in model.graph.initializer}
     '''for initializer in model.graph.initializer:
         layers.append(
             create_initializer_layer(
-- 
2.43.0


From 9f7b05066c097d8eb31c3f50dbe3104c0d5146ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:40 +0000
Subject: [PATCH 56/64] fix: Softmax along an axis of length 1 of a tensor with
 one other axis

---
 src/acetone_nnet/generator/layers/softmax/Softmax.py     | 9 ++++++---
 .../generator/layers/softmax/SoftmaxDefault.py           | 4 +++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/softmax/Softmax.py b/src/acetone_nnet/generator/layers/softmax/Softmax.py
index bc792ff..6682040 100644
--- a/src/acetone_nnet/generator/layers/softmax/Softmax.py
+++ b/src/acetone_nnet/generator/layers/softmax/Softmax.py
@@ -47,7 +47,10 @@ class Softmax(Layer):
             self.original_name = original_name
         self.axis = axis
 
-        if self.size in output_shape:
+        # The only axis which is not 1 is normalised as a vector, unless axis is another one
+        if self.size in output_shape and (
+            axis is None or len(output_shape) <= axis or output_shape[axis] == self.size
+        ):
             self.one_dimension = True
         else:
             self.output_channels = output_shape[1]
@@ -105,7 +108,7 @@ class Softmax(Layer):
             input_array = input_array.reshape(1, self.output_channels, self.output_height, self.output_width)
         else:
             input_array = input_array.flatten()
-            self.axis = -1
 
         exp = np.exp(input_array, dtype=float)
-        return exp / np.sum(exp, keepdims=True, axis=self.axis)
\ No newline at end of file
+        axis = -1 if self.one_dimension else self.axis
+        return exp / np.sum(exp, keepdims=True, axis=axis)
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py b/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
index 9bdc014..876ab11 100644
--- a/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
+++ b/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
@@ -96,15 +96,17 @@ def softmax_default_implementation(
     """Create a Softmax_Default layer using the attributes of old_layer."""
     if old_layer.one_dimension:
         output_shape = [1, 1, 1, old_layer.size]
+        axis = None
     else:
         output_shape = [1, old_layer.output_channels, old_layer.output_height, old_layer.output_width]
+        axis = old_layer.axis
     return SoftmaxDefault(
         version=version,
         original_name=old_layer.original_name,
         idx=old_layer.idx,
         size=old_layer.size,
         output_shape=output_shape,
-        axis=old_layer.axis,
+        axis=axis,
     )
 
 softmax_factory.register_implementation(
-- 
2.43.0


From ab2560dc488435004432bcc9fd18a7d2209d036d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:40 +0000
Subject: [PATCH 57/64] fix: refuse ONNX BatchNormalization in training mode

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 11f3b20..51fbd69 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -727,6 +727,8 @@ def create_batch_norm(
 
     if "epsilon" not in attributes:
         attributes["epsilon"] = 1e-05
+    if attributes.get("training_mode", 0):
+        raise ValueError("Error: BatchNormalization in training mode is not supported\n")
 
     scale = look_for_initializer(node.input[1], model)
     biases = look_for_initializer(node.input[2], model)
-- 
2.43.0


From ecae2b543645b25d01d75e1279327240584f7b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:00 +0000
Subject: [PATCH 58/64] fix: coordinates of resize layers aligning corners or
 half pixels symmetrically

align_corners divided integers (and by zero for one element), half_pixel_symmetric
declared its variables twice, halved with an integer division and read the target
length for the length of the input.
---
 .../generator/layers/resize/Resize.py         | 33 +++++++++++--------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/resize/Resize.py b/src/acetone_nnet/generator/layers/resize/Resize.py
index b9cc327..535409b 100644
--- a/src/acetone_nnet/generator/layers/resize/Resize.py
+++ b/src/acetone_nnet/generator/layers/resize/Resize.py
@@ -243,18 +243,18 @@ class Resize(Layer):
     ) -> str:
         """Generate the half-pixel-symmetric coordinate transformation code."""
         if coord_dim == 2:
-            target_length = self.output_height * self.scale[2]
+            target_length = self.input_height * self.scale[2]
+            resized_length = self.output_height
             input_length = self.input_height
         else:
-            target_length = self.output_width * self.scale[3]
+            target_length = self.input_width * self.scale[3]
+            resized_length = self.output_width
             input_length = self.input_width
 
-        s = f"float adjustment = {int(target_length)}/{target_length};\n"
-        s += f"                float center = {input_length}/2;\n"
-        s += "                float offset = center*(1 - adjustment);\n"
-        s += (f"                {coord_original} = offset + ({coord_resized} + 0.5)"
-              f"/{self.scale[coord_dim]} - 0.5;")
-        return s
+        adjustment = resized_length / target_length
+        offset = input_length / 2 * (1 - adjustment)
+        return (f"{coord_original} = {offset} + ({coord_resized} + 0.5)"
+                f"/{self.scale[coord_dim]} - 0.5;")
 
     def half_pixel_symmetric_implem(
             self: Self,
@@ -263,13 +263,15 @@ class Resize(Layer):
     ) -> float:
         """Compute the half-pixel-symmetric coordinate transformation code."""
         if coordinate_dimension == 2:
-            target_length = self.output_height * self.scale[2]
+            target_length = self.input_height * self.scale[2]
+            resized_length = self.output_height
             input_length = self.input_height
         else:
-            target_length = self.output_width * self.scale[3]
+            target_length = self.input_width * self.scale[3]
+            resized_length = self.output_width
             input_length = self.input_width
 
-        adjustment = int(target_length) / target_length
+        adjustment = resized_length / target_length
         center = input_length / 2
         offset = center * (1 - adjustment)
         return offset + (coordinate + 0.5) / self.scale[coordinate_dimension] - 0.5
@@ -319,9 +321,10 @@ class Resize(Layer):
             length_original = self.input_width
             length_resized = self.output_width
 
-        s = (f"{coord_original} = {coord_resized}*({length_original} - 1)"
-             f"/({length_resized} - 1);")
-        return s
+        if length_resized == 1:
+            return f"{coord_original} = 0;"
+        return (f"{coord_original} = {coord_resized}*({length_original} - 1.0)"
+                f"/({length_resized} - 1.0);")
 
     def align_corners_implem(
             self: Self,
@@ -336,6 +339,8 @@ class Resize(Layer):
             length_original = self.input_width
             length_resized = self.output_width
 
+        if length_resized == 1:
+            return 0
         return coordinate * (length_original - 1) / (length_resized - 1)
 
     def asymmetric(
-- 
2.43.0


From 8c342548abca2567b08d75e36ea43358d7a8ebbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:00 +0000
Subject: [PATCH 59/64] fix: nearest resizing reads the edge of its input for
 coordinates outside of it

---
 .../generator/layers/resize/resize_nearest/ResizeNearest.py     | 2 ++
 .../layers/resize/resize_nearest/ResizeNearestDefault.py        | 2 ++
 .../templates/layers/Resize/template_ResizeNearest.c.tpl        | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
index 59f3a46..5596428 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
@@ -85,8 +85,10 @@ class ResizeNearest(Resize):
                 for j in range(self.output_width):
                     x = self.coordinate_transformation_mode_implem_mapping[self.coordinate_transformation_mode](i, 2)
                     x0 = self.nearest_mode_implem_mapping[self.nearest_mode](x)
+                    x0 = max(0, min(self.input_height - 1, x0))
                     y = self.coordinate_transformation_mode_implem_mapping[self.coordinate_transformation_mode](j, 3)
                     y0 = self.nearest_mode_implem_mapping[self.nearest_mode](y)
+                    y0 = max(0, min(self.input_width - 1, y0))
 
                     output[f, i, j] = input_array[f, x0, y0]
         return self.activation_function.compute(output)
diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
index 66df2fd..d9d0f0a 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
@@ -80,6 +80,8 @@ class ResizeNearestDefault(ResizeNearest):
             self.coordinate_transformation_mode]("j", 3, "y")
         mustach_hash["nearest_mode_x"] = self.nearest_mode_mapping[self.nearest_mode]("x0", "x")
         mustach_hash["nearest_mode_y"] = self.nearest_mode_mapping[self.nearest_mode]("y0", "y")
+        mustach_hash["len_height"] = self.input_height - 1
+        mustach_hash["len_width"] = self.input_width - 1
 
         with open(self.template_path / "layers" / "Resize" / "template_ResizeNearest.c.tpl") as template_file:
             template = template_file.read()
diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl
index 243cd4c..293a7ac 100644
--- a/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl
+++ b/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl
@@ -9,6 +9,8 @@
                 {{{coordinate_transformation_mode_y}}}
                 {{nearest_mode_x}}
                 {{nearest_mode_y}}
+                x0 = x0<0 ? 0 : (x0>{{len_height}} ? {{len_height}}: x0);
+                y0 = y0<0 ? 0 : (y0>{{len_width}} ? {{len_width}}: y0);
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{{activation_function}}};
             }
         }
-- 
2.43.0


From 7d5ed701eca1951757739e914f5dec96ecd6e122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:00 +0000
Subject: [PATCH 60/64] fix: linear resizing of an input one element high or
 wide

The 1D template interpolated between the first and the last element of the input,
whatever its length; there was no template for inputs of one element.
---
 .../resize_linear/ResizeLinearDefault.py      | 34 ++++++-------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
index 748ed76..4739b52 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
@@ -61,30 +61,16 @@ class ResizeLinearDefault(ResizeLinear):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
 
-        if (self.input_height == 1) and (self.input_width > 1):
-            mustach_hash["len_dimension"] = self.input_width - 1
-            mustach_hash["dimension"] = self.input_width
-            mustach_hash["coordinate_transformation_mode"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("j", 3, "x")
-            dimension = "1D"
-        elif (self.input_height > 1) and (self.input_width == 1):
-            mustach_hash["len_dimension"] = self.input_height - 1
-            mustach_hash["dimension"] = self.input_height
-            mustach_hash["coordinate_transformation_mode"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("i", 2, "x")
-            dimension = "1D"
-        elif (self.input_height > 1) and (self.input_width > 1):
-            mustach_hash["len_height"] = self.input_height - 1
-            mustach_hash["len_width"] = self.input_width - 1
-            mustach_hash["input_width"] = self.input_width
-            mustach_hash["input_height"] = self.input_height
-            mustach_hash["coordinate_transformation_mode_x"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("i", 2, "x")
-            mustach_hash["coordinate_transformation_mode_y"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("j", 3, "y")
-            dimension = "2D"
-
-        with open(self.template_dict[dimension]) as template_file:
+        mustach_hash["len_height"] = self.input_height - 1
+        mustach_hash["len_width"] = self.input_width - 1
+        mustach_hash["input_width"] = self.input_width
+        mustach_hash["input_height"] = self.input_height
+        mustach_hash["coordinate_transformation_mode_x"] = self.coordinate_transformation_mode_mapping[
+            self.coordinate_transformation_mode]("i", 2, "x")
+        mustach_hash["coordinate_transformation_mode_y"] = self.coordinate_transformation_mode_mapping[
+            self.coordinate_transformation_mode]("j", 3, "y")
+
+        with open(self.template_dict["2D"]) as template_file:
             template = template_file.read()
         template_file.close()
 
-- 
2.43.0


From 412fbd23e090d66cfa589f7e3c4890f46e7204e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:00 +0000
Subject: [PATCH 61/64] fix: cubic resizing of an input of one element

---
 .../generator/layers/resize/resize_cubic/ResizeCubicDefault.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
index cf27bbd..2a4444c 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
@@ -69,7 +69,7 @@ class ResizeCubicDefault(ResizeCubic):
             mustach_hash["coordinate_transformation_mode"] = self.coordinate_transformation_mode_mapping[
                 self.coordinate_transformation_mode]("i", 2, "x")
             dimension = "1D"
-        elif (self.input_height > 1) and (self.input_width > 1):
+        else:
             mustach_hash["input_width"] = self.input_width
             mustach_hash["input_height"] = self.input_height
             mustach_hash["coordinate_transformation_mode_x"] = self.coordinate_transformation_mode_mapping[
-- 
2.43.0


From 5ea76e4bd4cdbcd2df51b432690375142556e618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:00 +0000
Subject: [PATCH 62/64] fix: a resize layer keeps its output size when its
 implementation is chosen

int(49 * (1 / 49)) is 0.
---
 .../layers/resize/resize_cubic/ResizeCubicDefault.py      | 8 +++++---
 .../layers/resize/resize_linear/ResizeLinearDefault.py    | 8 +++++---
 .../layers/resize/resize_nearest/ResizeNearestDefault.py  | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
index 2a4444c..569cb93 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
@@ -90,7 +90,7 @@ def resize_cubic_default_implementation(
         version: str,
 ) -> ResizeCubicDefault:
     """Create a ResizeCubic_Default layer using the parameters of old_layer."""
-    return ResizeCubicDefault(
+    layer = ResizeCubicDefault(
         version=version,
         original_name=old_layer.original_name,
         idx=old_layer.idx,
@@ -101,13 +101,15 @@ def resize_cubic_default_implementation(
         coordinate_transformation_mode=old_layer.coordinate_transformation_mode,
         exclude_outside=old_layer.exclude_outside,
         keep_aspect_ratio_policy=old_layer.keep_aspect_ratio_policy,
-        boolean_resize=True,
-        target_size=old_layer.scale,
+        boolean_resize=False,
+        target_size=[1, old_layer.output_channels, old_layer.output_height, old_layer.output_width],
         roi=old_layer.roi,
         extrapolation_value=old_layer.extrapolation_value,
         nearest_mode=old_layer.nearest_mode,
         cubic_coeff_a=old_layer.cubic_coeff_a,
     )
+    layer.scale = old_layer.scale
+    return layer
 
 resize_cubic_factory.register_implementation(
     None,
diff --git a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
index 4739b52..74edd0b 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
@@ -81,7 +81,7 @@ def resize_linear_default_implementation(
         version: str,
 ) -> ResizeLinearDefault:
     """Create a ResizeLinear_Default layer using the parameters of old_layer."""
-    return ResizeLinearDefault(
+    layer = ResizeLinearDefault(
         version=version,
         original_name=old_layer.original_name,
         idx=old_layer.idx,
@@ -92,13 +92,15 @@ def resize_linear_default_implementation(
         coordinate_transformation_mode=old_layer.coordinate_transformation_mode,
         exclude_outside=old_layer.exclude_outside,
         keep_aspect_ratio_policy=old_layer.keep_aspect_ratio_policy,
-        boolean_resize=True,
-        target_size=old_layer.scale,
+        boolean_resize=False,
+        target_size=[1, old_layer.output_channels, old_layer.output_height, old_layer.output_width],
         roi=old_layer.roi,
         extrapolation_value=old_layer.extrapolation_value,
         nearest_mode=old_layer.nearest_mode,
         cubic_coeff_a=old_layer.cubic_coeff_a,
     )
+    layer.scale = old_layer.scale
+    return layer
 
 resize_linear_factory.register_implementation(
     None,
diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
index d9d0f0a..0ce1da6 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
@@ -94,7 +94,7 @@ def resize_nearest_default_implementation(
         version: str,
 ) -> ResizeNearestDefault:
     """Create a ResizeNearest_Default layer using the parameters of old_layer."""
-    return ResizeNearestDefault(
+    layer = ResizeNearestDefault(
         version=version,
         original_name=old_layer.original_name,
         idx=old_layer.idx,
@@ -105,13 +105,15 @@ def resize_nearest_default_implementation(
         coordinate_transformation_mode=old_layer.coordinate_transformation_mode,
         exclude_outside=old_layer.exclude_outside,
         keep_aspect_ratio_policy=old_layer.keep_aspect_ratio_policy,
-        boolean_resize=True,
-        target_size=old_layer.scale,
+        boolean_resize=False,
+        target_size=[1, old_layer.output_channels, old_layer.output_height, old_layer.output_width],
         roi=old_layer.roi,
         extrapolation_value=old_layer.extrapolation_value,
         nearest_mode=old_layer.nearest_mode,
         cubic_coeff_a=old_layer.cubic_coeff_a,
     )
+    layer.scale = old_layer.scale
+    return layer
 
 resize_nearest_factory.register_implementation(
     None,
-- 
2.43.0


From ad1ab1486a1653ef20764d07ec247d5c7cf365fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:49 +0000
Subject: [PATCH 63/64] fix: import ONNX Resize with optional attributes and
 inputs left out, or with axes

Attributes and modes the resize layers do not implement are refused.
---
 .../generator/layers/resize/Resize.py         |  4 ++
 .../importers/ONNX_importer/create_layer.py   | 50 ++++++++++++-------
 2 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/resize/Resize.py b/src/acetone_nnet/generator/layers/resize/Resize.py
index 535409b..395c981 100644
--- a/src/acetone_nnet/generator/layers/resize/Resize.py
+++ b/src/acetone_nnet/generator/layers/resize/Resize.py
@@ -181,6 +181,10 @@ class Resize(Layer):
         if self.exclude_outside not in [0, 1]:
             msg += f"Error: exclude outside value in Resize ({self.exclude_outside})"
             msg += "\n"
+        if self.output_channels != self.input_channels:
+            msg += (f"Error: channels resized in Resize "
+                    f"({self.input_channels} to {self.output_channels})")
+            msg += "\n"
         for axe in self.axes:
             if axe < 0 or axe >= 4:
                 msg += (f"Error: axe out of bound in Resize "
diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 51fbd69..50172e9 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -377,26 +377,26 @@ def create_concat(
 # Create a layer Resize
 def resize_set_default_attributes_values(
     attributes: dict[str, Any],
-    input_shape: list[int] | np.ndarray,
+    rank: int,
 ) -> dict[str, Any]:
     """Set default value in attributes."""
+    if "mode" not in attributes:
+        attributes["mode"] = b"nearest"
     if "axes" not in attributes:
-        attributes["axes"] = []
-    else:
-        for i in range(len(attributes["axes"])):
-            axe = attributes["axes"][i]
-            if axe < 0:
-                axe = len(input_shape) - axe
+        attributes["axes"] = list(range(rank))
+    attributes["axes"] = [
+        axe + rank if axe < 0 else axe for axe in attributes["axes"]
+    ]
     if "coordinate_transformation_mode" not in attributes:
-        attributes["coordinate_transformation_mode"] = "half_pixel"
+        attributes["coordinate_transformation_mode"] = b"half_pixel"
     if "exclude_outside" not in attributes:
         attributes["exclude_outside"] = 0
     if "keep_aspect_ratio_policy" not in attributes:
-        attributes["keep_aspect_ratio_policy"] = "stretch"
+        attributes["keep_aspect_ratio_policy"] = b"stretch"
     if "extrapolation_value" not in attributes:
         attributes["extrapolation_value"] = 0.0
     if "nearest_mode" not in attributes:
-        attributes["nearest_mode"] = "round_prefer_floor"
+        attributes["nearest_mode"] = b"round_prefer_floor"
     if "cubic_coeff_a" not in attributes:
         attributes["cubic_coeff_a"] = -0.75
 
@@ -413,6 +413,7 @@ def create_resize(
     """Create a Resize layer."""
     input_shape = get_shape(node.input[0], model)
     output_shape = get_shape(node.output[0], model)
+    original_len_shape = len(get_shape(node.input[0], model, extend=False))
     size = find_size(output_shape)
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
@@ -420,19 +421,35 @@ def create_resize(
         look_for_initializer(initializer_name, model)
         for initializer_name in node.input[1:]
     ]
+    initializers += [[]] * (3 - len(initializers))
     attributes = extract_attributes(node)
-    attributes = resize_set_default_attributes_values(attributes, input_shape)
+    attributes = resize_set_default_attributes_values(attributes, original_len_shape)
+
+    if get_opset_version(model) < 11:
+        raise ValueError("Error: Resize before version 11 is not supported\n")
+    if attributes.get("antialias", 0):
+        raise ValueError("Error: antialias is not supported in Resize\n")
+    if attributes["mode"] == b"cubic" and attributes["exclude_outside"]:
+        raise ValueError("Error: exclude_outside is not supported in Resize\n")
+    if attributes["coordinate_transformation_mode"] == b"tf_crop_and_resize":
+        raise ValueError("Error: tf_crop_and_resize is not supported in Resize\n")
 
     if initializers[2]:
         # target size
-        targ_size = onnx.numpy_helper.to_array(initializers[2])
+        if attributes["keep_aspect_ratio_policy"] != b"stretch":
+            raise ValueError("Error: keep_aspect_ratio_policy is not supported in Resize\n")
+        targ_size = [1, *input_shape[1:]]
+        given_size = onnx.numpy_helper.to_array(initializers[2])
         bool_resize = 0
     else:
         # scale
-        targ_size = onnx.numpy_helper.to_array(initializers[1])
+        targ_size = [1.0] * len(input_shape)
+        given_size = onnx.numpy_helper.to_array(initializers[1])
         bool_resize = 1
-
-    roi = onnx.numpy_helper.to_array(initializers[0]) if initializers[0] else []
+    if len(given_size) != len(attributes["axes"]):
+        raise ValueError("Error: a scale or a size is missing in Resize\n")
+    for axe, value in zip(attributes["axes"], given_size.tolist(), strict=True):
+        targ_size[axe + len(input_shape) - original_len_shape] = value
 
     return create_resize_obj(
         mode=attributes["mode"],
@@ -440,13 +457,10 @@ def create_resize(
         idx=idx,
         size=size,
         input_shape=input_shape,
-        axes=attributes["axes"],
         coordinate_transformation_mode=attributes["coordinate_transformation_mode"],
         exclude_outside=attributes["exclude_outside"],
-        keep_aspect_ratio_policy=attributes["keep_aspect_ratio_policy"],
         target_size=targ_size,
         boolean_resize=bool_resize,
-        roi=roi,
         extrapolation_value=attributes["extrapolation_value"],
         nearest_mode=attributes["nearest_mode"],
         cubic_coeff_a=attributes["cubic_coeff_a"],
-- 
2.43.0


From 0ea7f33f6c96043f131ea853ed34e4081cf3e21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:40:49 +0000
Subject: [PATCH 64/64] fix: PyTorch import gave other networks for non-square
 kernels, shared or repeated activations, defaults and unsupported operations

Operations are recognised by their whole name; an activation is fused only into a layer nothing else reads, and becomes a layer of its
own otherwise; batch normalisations are folded only into a convolution of their own; kernel height, default pooling stride and
left-out biases are read as PyTorch defines them; settings and operations without a layer are refused.
---
 .../PYTORCH_importer/parse_pytorch.py         | 137 ++++++++++++++----
 1 file changed, 112 insertions(+), 25 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 202e0de..3515cf1 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -4,6 +4,7 @@ import numpy as np
 
 from acetone_nnet.generator import (
     ActivationFunctions,
+    ActivationLayer,
     Add,
     Clip,
     Average,
@@ -124,7 +125,9 @@ class ShapeAwareVisitor(FXGraphVisitor):
             idx=self.idx,
             size=node.meta['val'].numel(),
             input_shape=node.meta['val'].shape,
-            data_format="channels_last" if node.meta['val'].is_contiguous(memory_format=torch.channels_last) else "channels_first",
+            data_format="channels_last" if node.meta['val'].is_contiguous(memory_format=torch.channels_last)
+            # a tensor of one channel, or of one element along height and width, is stored in both orders
+            and not node.meta['val'].is_contiguous() else "channels_first",
         )
         self.data_format = this_layer.data_format
         logging.info(f"[LAYOUT] : {self.data_format}")
@@ -132,32 +135,75 @@ class ShapeAwareVisitor(FXGraphVisitor):
         self.idx+=1
 
 
+    def _read_once(self, node: torch.fx.Node) -> bool:
+        """Whether nothing else than the node reads the layer of its operand."""
+        previous, operand = self.layerdic[node.args[0].name][0], node.args[0]
+        while len(operand.users) == 1 and operand.name != previous.original_name:
+            # The operand is the same layer under another name
+            operand = operand.args[0]
+        return len(operand.users) == 1
+
+    def _set_activation(self, node: torch.fx.Node, activation_function: ActivationFunctions):
+        """Apply an activation function to the result of the node's operand."""
+        previous, shape = self.layerdic[node.args[0].name]
+        fused = (
+            isinstance(previous.activation_function, Linear)
+            and not isinstance(previous, InputLayer)
+            and self._read_once(node)
+        )
+        if fused:
+            previous.activation_function = activation_function # set previous layer activation
+            self.layerdic[node.name] = self.layerdic[node.args[0].name] # register
+            return
+        this_layer = ActivationLayer(
+            original_name=node.name,
+            idx=self.idx,
+            size=previous.size,
+            activation_function=activation_function,
+        )
+        previous.next_layer.append(this_layer)
+        this_layer.previous_layer.append(previous)
+        self.layerdic[node.name] = (this_layer, shape)
+        self.idx+=1
+
+    def _require(self, node: torch.fx.Node, condition: bool, reason: str):
+        """Refuse a setting no layer has."""
+        if not condition:
+            raise ValueError(f"Error: {node.name}: {reason} is not supported\n")
+
     def visit_call_function(self, node: torch.fx.Node):
         target_name = node.target.__name__ if hasattr(node.target, '__name__') else str(node.target)
+        # The operation, without its overload or the mark of its in-place version
+        target_name = target_name.split(".")[0].rstrip("_")
         self._print_node("FUNC", node, f"call: {target_name}(args={node.args})")
-        if "linear" in target_name:
+        if target_name == "linear":
+            weights = self.module.state_dict()[node.args[1].target].numpy().T
+            self._require(node, self.layerdic[node.args[0].name][0].size == weights.shape[0], "a product with several rows")
+            if len(node.args) > 2 and node.args[2] is not None:
+                biases = self.module.state_dict()[node.args[2].target].numpy()
+            else:
+                biases = np.zeros(weights.shape[1], dtype=np.float32)
             this_layer = Dense(
                 original_name=node.name,
                 idx=self.idx,
                 size=node.meta['val'].numel(),
-                weights=self.module.state_dict()[node.args[1].target].numpy().T,
-                biases=self.module.state_dict()[node.args[2].target].numpy(),
+                weights=weights,
+                biases=biases,
                 activation_function=Linear()
             )
             self.layerdic[node.args[0].name][0].next_layer.append(this_layer)
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "relu" in target_name:
-            self.layerdic[node.args[0].name][0].activation_function=ReLu() # set previous layer activation 
-            self.layerdic[node.name] = self.layerdic[node.args[0].name] # register 
-        elif "clamp" in target_name:
-            self.layerdic[node.args[0].name][0].activation_function=Clip( # set previous layer activation 
+        elif target_name == "relu":
+            self._set_activation(node, ReLu())
+        elif target_name == "clamp":
+            self._require(node, len(node.args) > 2 and None not in node.args[1:], "a clamp without both bounds")
+            self._set_activation(node, Clip(
                 max_value=node.args[2],
                 min_value=node.args[1]
-            )
-            self.layerdic[node.name] = self.layerdic[node.args[0].name] # register 
-        elif "conv2d" in target_name:
+            ))
+        elif target_name == "conv2d":
             #first call to conv2d is expected to decide memory layout format based on its input tensor
             if not hasattr(self,"data_format"):
                 self.data_format = "channels_last" if self.module.state_dict()[node.args[1].target].is_contiguous(memory_format=torch.channels_last) else "channels_first"
@@ -166,6 +212,9 @@ class ShapeAwareVisitor(FXGraphVisitor):
             padding = node.args[4] + node.args[4] if len(node.args) > 4 else [0,0,0,0]
             dilation = node.args[5][0] if len(node.args) > 5 else 1
             group = node.args[6] if len(node.args) > 6 else 1
+            for values in node.args[3:4] + node.args[5:6]:
+                self._require(node, len(values) < 2 or values[0] == values[1], "another stride or dilation along each axis")
+            bias = node.args[2] if len(node.args) > 2 else None
             this_layer = Conv2D(
                     conv_algorithm="specs",
                     original_name=node.name,
@@ -174,22 +223,29 @@ class ShapeAwareVisitor(FXGraphVisitor):
                     padding=padding,
                     strides=stride,
                     group=group,
-                    kernel_h=self.module.state_dict()[node.args[1].target].shape[-1],
+                    kernel_h=self.module.state_dict()[node.args[1].target].shape[-2],
                     kernel_w=self.module.state_dict()[node.args[1].target].shape[-1],
                     dilation_rate=dilation,
                     nb_filters=node.meta['val'].shape[1],
                     input_shape=self.layerdic[node.args[0].name][1],
                     output_shape=node.meta['val'].shape,
                     weights=self.module.state_dict()[node.args[1].target].numpy(),
-                    biases=self.module.state_dict()[node.args[2].target].numpy() if node.args[2] is not None else np.zeros(node.meta['val'].shape[1],dtype=np.float32),
+                    biases=self.module.state_dict()[bias.target].numpy() if bias is not None else np.zeros(node.meta['val'].shape[1],dtype=np.float32),
                     activation_function=Linear()
                 )
             self.layerdic[node.args[0].name][0].next_layer.append(this_layer)
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "batch_norm" in target_name:
+        elif target_name == "batch_norm":
             # Fusing batch normalization to previous conv2d https://pytorch-cn.com/tutorials/intermediate/fx_conv_bn_fuser.html
+            conv = self.layerdic[node.args[0].name][0]
+            self._require(
+                node,
+                isinstance(conv, Conv2D) and isinstance(conv.activation_function, Linear)
+                and self._read_once(node),
+                "a batch normalisation of anything but a convolution of its own",
+            )
             self.layerdic[node.name] = self.layerdic[node.args[0].name]
             bn_w = self.module.state_dict()[node.args[1].target]
             bn_b = self.module.state_dict()[node.args[2].target]
@@ -203,8 +259,10 @@ class ShapeAwareVisitor(FXGraphVisitor):
             conv_b = (conv_b - bn_rm) * bn_var_rsqrt * bn_w + bn_b
             self.layerdic[node.args[0].name][0].weights = conv_w.numpy().astype(np.float32)
             self.layerdic[node.args[0].name][0].biases = conv_b.numpy().astype(np.float32)
-        elif "add" in target_name:
+        elif target_name == "add":
             if node.args[0].name in self.layerdic.keys(): # bypass bn2_num_batches_tracked + 1
+                self._require(node, not node.kwargs, "a scaled addition")
+                self._require(node, len(node.meta['val'].shape) == 4, "an addition of tensors of rank other than 4")
                 this_layer =  Add(
                     original_name=node.name,
                     idx=self.idx,
@@ -220,12 +278,15 @@ class ShapeAwareVisitor(FXGraphVisitor):
                 self.idx+=1
             else:
                 logging.info(f"Add layer bypassed: {node.args[0].name}")
-        elif "cat" in target_name:
+        elif target_name == "cat":
+            axis = node.args[1] if len(node.args) > 1 else 0
+            rank = len(node.meta['val'].shape)
+            self._require(node, rank == 4, "a concatenation of tensors of rank other than 4")
             this_layer = Concatenate(
                     original_name=node.name,
                     idx=self.idx,
                     size=node.meta['val'].numel(),
-                    axis=node.args[1],
+                    axis=axis + rank if axis < 0 else axis,
                     input_shapes=[self.layerdic[node.args[0][i].name][1] for i in range(len(node.args[0]))],
                     output_shape=node.meta['val'].shape,
                     activation_function=Linear(),
@@ -235,15 +296,22 @@ class ShapeAwareVisitor(FXGraphVisitor):
                 this_layer.previous_layer.append(self.layerdic[node.args[0][i].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "dropout" in target_name:
+        elif target_name == "dropout":
             self.layerdic[node.name] = self.layerdic[node.args[0].name]
-        elif "flatten" in target_name:
+        elif target_name == "flatten":
             self.layerdic[node.name] = self.layerdic[node.args[0].name]
-        elif "max_pool2d" in target_name:
+        elif target_name == "max_pool2d":
             kernel = node.args[1][0] if len(node.args) > 1 else 1
-            stride = node.args[2][0] if len(node.args) > 2 else 1
+            stride = node.args[2][0] if len(node.args) > 2 and node.args[2] else kernel
             padding = node.args[3] + node.args[3] if len(node.args) > 3 else [0,0,0,0]
             dilation = node.args[4][0] if len(node.args) > 4 else 1
+            for values in node.args[1:3] + node.args[4:5]:
+                self._require(node, len(values) < 2 or values[0] == values[1], "another kernel or stride along each axis")
+            self._require(node, dilation == 1, "a dilated pooling")
+            # Rounding the output size up only matters when the windows do not fit the padded input
+            if any(node.args[5:]):
+                for dim, pad in zip(self.layerdic[node.args[0].name][1][-2:], padding[:2], strict=True):
+                    self._require(node, (dim + 2 * pad - kernel) % stride == 0, "a pooling with ceil_mode")
             this_layer = MaxPooling2D(
                     original_name=node.name,
                     idx=self.idx,
@@ -260,7 +328,13 @@ class ShapeAwareVisitor(FXGraphVisitor):
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "adaptive_avg_pool2d" in target_name:
+        elif target_name == "adaptive_avg_pool2d":
+            input_shape = self.layerdic[node.args[0].name][1]
+            self._require(
+                node,
+                all(dim == 1 for dim in node.args[1]) and input_shape[-1] == input_shape[-2],
+                "an adaptive pooling of anything but a square into one element",
+            )
             this_layer = AveragePooling2D(
                 original_name=node.name,
                 idx=self.idx,
@@ -277,6 +351,9 @@ class ShapeAwareVisitor(FXGraphVisitor):
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
+        else:
+            # Checks of the program (no user) have no meaning for the network
+            self._require(node, not node.users, f"operation {target_name}")
 
     def visit_call_module(self, node: torch.fx.Node):
         self._print_node("MODULE", node, f"mod: {node.target}")
@@ -292,13 +369,23 @@ class ShapeAwareVisitor(FXGraphVisitor):
         # The output node usually contains the return value in args[0]
         # We look at the meta of the output node itself if available, or the inputs
         logging.info(f"{self.indent}[OUTPUT] return {node.args[0]}")
+        outputs = node.args[0] if isinstance(node.args[0], (tuple, list)) else (node.args[0],)
+        self._require(
+            node,
+            len(outputs) == 1 and outputs[0].name in self.layerdic and not self.layerdic[outputs[0].name][0].next_layer,
+            "a program with another result than its last layer's",
+        )
 
 
 
 def load_pytorch(program : ExportedProgram):
     visitor = ShapeAwareVisitor()
-    visitor.visit(program.module())
-    layers, max_road, dict_cst = graph_interpretor.tri_topo([l[0] for l in visitor.layerdic.values()])
+    module = program.module()
+    module.graph.eliminate_dead_code()
+    visitor.visit(module)
+    layers, max_road, dict_cst = graph_interpretor.tri_topo(
+        list({l[0].idx: l[0] for l in visitor.layerdic.values()}.values()),
+    )
     layers = [x.find_output_str(dict_cst) for x in layers]
     print("Finished model initialization.")    
     return layers, "float", np.float32, visitor.data_format,max_road, dict_cst
\ No newline at end of file
-- 
2.43.0

