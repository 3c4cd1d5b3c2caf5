From ed1add10626725c325655ea02a0f7418956adc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:38 +0000
Subject: [PATCH 01/36] fix: validate tensors before the convolution and dense
 checks read them

---
 lib/src/private/src/mli_check.cc | 148 ++++++++++++++++---------------
 1 file changed, 76 insertions(+), 72 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 2298717..6e788e1 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -401,13 +401,6 @@ mli_status mli_chk_conv2d_hwcn (
     mli_status stat = MLI_STATUS_OK;
     bool fail = false;
 
-    // Checking size of the kernel for functions' specializations.
-    if (kernel_size != 0) {
-      fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
-      fail |= MLI_CHECK(weights->shape[KRNL_W_DIM_HWCN] == kernel_size, "Wrong kernel width for specialization");
-      if (fail) return MLI_STATUS_SHAPE_MISMATCH;
-    }
-
     stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
     if (stat != MLI_STATUS_OK) return stat;
     stat = MLI_CHECK_STATUS(mli_chk_tensor (weights), "Bad weights tensor");
@@ -416,6 +409,14 @@ mli_status mli_chk_conv2d_hwcn (
     if (stat != MLI_STATUS_OK) return stat;
     stat = MLI_CHECK_STATUS(mli_chk_tensor (out, MLI_CONV_OUT_PTR_INSIDE_CCM), "Bad output tensor");
     if (stat != MLI_STATUS_OK) return stat;
+
+    // Checking size of the kernel for functions' specializations.
+    if (kernel_size != 0) {
+      fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
+      fail |= MLI_CHECK(weights->shape[KRNL_W_DIM_HWCN] == kernel_size, "Wrong kernel width for specialization");
+      if (fail) return MLI_STATUS_SHAPE_MISMATCH;
+    }
+
     if (MLI_CHECK(out->el_type == in->el_type, "Wrong output type"))
         return MLI_STATUS_TYPE_MISMATCH;
 
@@ -517,17 +518,17 @@ mli_status mli_chk_conv2d_hwcn_fx16(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_16, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_16, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -540,17 +541,17 @@ mli_status mli_chk_conv2d_hwcn_fx16_fx8_fx8(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_8, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_8, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -566,13 +567,6 @@ mli_status mli_chk_depthwise_conv2d_hwcn(
     mli_status stat = MLI_STATUS_OK;
     bool fail = false;
 
-    // Checking size of the kernel for functions' specializations.
-    if (kernel_size != 0) {
-      fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
-      fail |= MLI_CHECK(weights->shape[KRNL_W_DIM_HWCN] == kernel_size, "Wrong kernel width for specialization");
-      if (fail) return MLI_STATUS_SHAPE_MISMATCH;
-    }
-
     stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
     if (stat != MLI_STATUS_OK) return stat;
     stat = MLI_CHECK_STATUS(mli_chk_tensor (weights), "Bad weights tensor");
@@ -581,6 +575,14 @@ mli_status mli_chk_depthwise_conv2d_hwcn(
     if (stat != MLI_STATUS_OK) return stat;
     stat = MLI_CHECK_STATUS(mli_chk_tensor (out, MLI_CONV_OUT_PTR_INSIDE_CCM), "Bad output tensor");
     if (stat != MLI_STATUS_OK) return stat;
+
+    // Checking size of the kernel for functions' specializations.
+    if (kernel_size != 0) {
+      fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
+      fail |= MLI_CHECK(weights->shape[KRNL_W_DIM_HWCN] == kernel_size, "Wrong kernel width for specialization");
+      if (fail) return MLI_STATUS_SHAPE_MISMATCH;
+    }
+
     if (MLI_CHECK(out->el_type == in->el_type, "Wrong output type"))
         return MLI_STATUS_TYPE_MISMATCH;
 
@@ -637,17 +639,17 @@ mli_status mli_chk_depthwise_conv2d_hwcn_fx16(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_depthwise_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_16, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_16, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_depthwise_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -660,17 +662,17 @@ mli_status mli_chk_depthwise_conv2d_hwcn_fx16_fx8_fx8(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_depthwise_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_8, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_8, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_depthwise_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -730,13 +732,6 @@ mli_status mli_chk_group_conv2d_hwcn(
     mli_status stat = MLI_STATUS_OK;
     bool fail = false;
 
-    // Checking size of the kernel for functions' specializations.
-    if (kernel_size != 0) {
-      fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
-      fail |= MLI_CHECK(weights->shape[KRNL_W_DIM_HWCN] == kernel_size, "Wrong kernel width for specialization");
-      if (fail) return MLI_STATUS_SHAPE_MISMATCH;
-    }
-
     stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
     if (stat != MLI_STATUS_OK) return stat;
     stat = MLI_CHECK_STATUS(mli_chk_tensor (weights), "Bad weights tensor");
@@ -745,6 +740,14 @@ mli_status mli_chk_group_conv2d_hwcn(
     if (stat != MLI_STATUS_OK) return stat;
     stat = MLI_CHECK_STATUS(mli_chk_tensor (out, MLI_CONV_OUT_PTR_INSIDE_CCM), "Bad output tensor");
     if (stat != MLI_STATUS_OK) return stat;
+
+    // Checking size of the kernel for functions' specializations.
+    if (kernel_size != 0) {
+      fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
+      fail |= MLI_CHECK(weights->shape[KRNL_W_DIM_HWCN] == kernel_size, "Wrong kernel width for specialization");
+      if (fail) return MLI_STATUS_SHAPE_MISMATCH;
+    }
+
     if (MLI_CHECK(out->el_type == in->el_type, "Wrong output type"))
         return MLI_STATUS_TYPE_MISMATCH;
 
@@ -804,17 +807,17 @@ mli_status mli_chk_group_conv2d_hwcn_fx16(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_group_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_16, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_16, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_group_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -827,17 +830,17 @@ mli_status mli_chk_group_conv2d_hwcn_fx16_fx8_fx8(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_group_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_8, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_8, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_group_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -899,13 +902,6 @@ mli_status mli_chk_transpose_conv2d_hwcn (
     mli_status stat = MLI_STATUS_OK;
     bool fail = false;
 
-    // Checking size of the kernel for functions' specializations.
-    if (kernel_size != 0) {
-      fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
-      fail |= MLI_CHECK(weights->shape[KRNL_W_DIM_HWCN] == kernel_size, "Wrong kernel width for specialization");
-      if (fail) return MLI_STATUS_SHAPE_MISMATCH;
-    }
-
     stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
     if (stat != MLI_STATUS_OK) return stat;
     stat = MLI_CHECK_STATUS(mli_chk_tensor (weights), "Bad weights tensor");
@@ -914,6 +910,14 @@ mli_status mli_chk_transpose_conv2d_hwcn (
     if (stat != MLI_STATUS_OK) return stat;
     stat = MLI_CHECK_STATUS(mli_chk_tensor (out, MLI_CONV_OUT_PTR_INSIDE_CCM), "Bad output tensor");
     if (stat != MLI_STATUS_OK) return stat;
+
+    // Checking size of the kernel for functions' specializations.
+    if (kernel_size != 0) {
+      fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
+      fail |= MLI_CHECK(weights->shape[KRNL_W_DIM_HWCN] == kernel_size, "Wrong kernel width for specialization");
+      if (fail) return MLI_STATUS_SHAPE_MISMATCH;
+    }
+
     if (MLI_CHECK(out->el_type == in->el_type, "Wrong output type"))
         return MLI_STATUS_TYPE_MISMATCH;
 
@@ -981,17 +985,17 @@ mli_status mli_chk_transpose_conv2d_hwcn_fx16(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_transpose_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_16, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_16, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_transpose_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -1004,17 +1008,17 @@ mli_status mli_chk_transpose_conv2d_hwcn_fx16_fx8_fx8(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_transpose_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_8, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_8, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_transpose_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -1366,17 +1370,17 @@ mli_status mli_chk_fully_connected_fx16_fx8_fx8(
         const mli_tensor * bias,
         const mli_fully_connected_cfg * cfg,
         mli_tensor * out) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_fully_connected(in, weights, bias, cfg, out), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_8, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_8, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_fully_connected(in, weights, bias, cfg, out), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -1388,17 +1392,17 @@ mli_status mli_chk_fully_connected_fx8(
         const mli_tensor * bias,
         const mli_fully_connected_cfg * cfg,
         mli_tensor * out) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_fully_connected(in, weights, bias, cfg, out), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_8, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_8, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_8, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_fully_connected(in, weights, bias, cfg, out), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -1410,17 +1414,17 @@ mli_status mli_chk_fully_connected_fx16(
         const mli_tensor * bias,
         const mli_fully_connected_cfg * cfg,
         mli_tensor * out) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_fully_connected(in, weights, bias, cfg, out), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_16, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_16, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_fully_connected(in, weights, bias, cfg, out), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
-- 
2.43.0


From 443efd7b7f136e609e0d86ce15b096c75a8cb18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:24 +0000
Subject: [PATCH 02/36] fix: report null arguments instead of reading through
 them in the parameter checks

---
 lib/src/private/src/mli_check.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 6e788e1..08bc5b2 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -102,6 +102,7 @@ static MLI_FORCE_INLINE mli_status check_tensor_private(
 }
 
 mli_status mli_chk_lut(const mli_lut * lut, int buff_size) {
+    if (MLI_CHECK(lut != NULL, "Bad lut null pointer")) return MLI_STATUS_BAD_FUNC_CFG;
     if (MLI_CHECK((int)lut->data.capacity >= buff_size, "Insufficient lut data capacity")) {
         return MLI_STATUS_NOT_ENGH_MEM;
     }
@@ -218,7 +219,7 @@ mli_status mli_chk_scalar_tensor (const mli_tensor * in) {
     // .el_type - any value (any valid element type)
     // .el_params - any value (any valid for primitive)
 
-    if (MLI_CHECK(in != NULL, "Bad tensor null pointer")) stat = MLI_STATUS_BAD_TENSOR;
+    if (MLI_CHECK(in != NULL, "Bad tensor null pointer")) return MLI_STATUS_BAD_TENSOR;
 
     if (in->rank == 0) {
         // for tensors with rank 0 no need for extra checks beside quant params.
@@ -2051,6 +2052,9 @@ mli_status mli_chk_rnn_dense (
     // Check config is valid
     fail |= MLI_CHECK(cfg != NULL , "Bad cfg pointer");
     if (fail) return MLI_STATUS_BAD_FUNC_CFG;
+    fail |= MLI_CHECK(in != NULL && weights != NULL, "Bad tensors array null pointer");
+    fail |= MLI_CHECK(out != NULL, "Bad tensor null pointer");
+    if (fail) return MLI_STATUS_BAD_TENSOR;
 
     const int inputs_num = cfg->inputs_num;
     fail |= MLI_CHECK(inputs_num > 0, "number of inputs should be > 0");
@@ -2225,6 +2229,7 @@ mli_status mli_chk_lstm_cell (
     mli_status stat = MLI_STATUS_OK;
     bool fail = false;
 
+    if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
 
     // Check tanh_lut
     stat = MLI_CHECK_STATUS(mli_chk_lut(tanh_lut, tanh_lut_fx16.data.capacity), "Tanh LUT error");
@@ -2448,6 +2453,7 @@ mli_status mli_chk_gru_cell (
     mli_status stat = MLI_STATUS_OK;
     bool fail = false;
 
+    if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
 
     // Check tanh_lut
     stat = MLI_CHECK_STATUS(mli_chk_lut(tanh_lut, tanh_lut_fx16.data.capacity), "Tanh LUT error");
@@ -2730,6 +2736,8 @@ mli_status mli_chk_permute_sa8 (const mli_tensor * in, const mli_permute_cfg * c
 }
 
 mli_status mli_chk_count_elem_num(const mli_tensor *in, uint32_t start_dim) {
+    if (MLI_CHECK(in != NULL, "Bad tensor null pointer"))
+        return MLI_STATUS_BAD_TENSOR;
     if (MLI_CHECK(in->rank <= MLI_MAX_RANK, "rank should not exceed MAX_RANK"))
         return MLI_STATUS_BAD_TENSOR;
     if (in->rank != 0) {
@@ -2832,6 +2840,7 @@ mli_status mli_chk_data_movement(const mli_tensor *in, const mli_mov_cfg_t *cfg,
     stat = MLI_CHECK_STATUS(mli_chk_tensor (in, false), "Bad input tensor");
     if (stat != MLI_STATUS_OK) return stat;
 
+    if (MLI_CHECK(out != NULL, "Bad tensor null pointer")) return MLI_STATUS_BAD_TENSOR;
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
     if ((in->el_type == MLI_EL_SA_8 || in->el_type == MLI_EL_SA_32) && (in->el_params.sa.dim != -1)) {
         bool fail = false;
-- 
2.43.0


From 34d7a7efd7e06d46ee032f003a2e447255c424c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:06 +0000
Subject: [PATCH 03/36] fix: reject group convolutions with fewer input
 channels than the weights need

---
 lib/src/private/src/mli_check.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 08bc5b2..bf76b99 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -760,7 +760,7 @@ mli_status mli_chk_group_conv2d_hwcn(
 
     int group_count = in->shape[FMAP_C_DIM_HWC] / weights->shape[KRNL_D_DIM_HWCN];
     fail |= MLI_CHECK(in->shape[FMAP_C_DIM_HWC] % weights->shape[KRNL_D_DIM_HWCN] == 0, "Input channel count must be multiple of group count");
-    fail |= MLI_CHECK(weights->shape[KRNL_C_DIM_HWCN] % group_count == 0, "Number of filters must be multiple of group count");
+    fail |= MLI_CHECK(group_count > 0 && weights->shape[KRNL_C_DIM_HWCN] % group_count == 0, "Number of filters must be multiple of group count");
     fail |= MLI_CHECK(out->shape[FMAP_C_DIM_HWC] == weights->shape[KRNL_C_DIM_HWCN], "Shape mismatch out and weights");
     if (fail) return MLI_STATUS_SHAPE_MISMATCH;
 
-- 
2.43.0


From 51e3a7f9581a69a20b49f01e1e5eb57dc4b98826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:13 +0000
Subject: [PATCH 04/36] fix: reject a subtensor request without coordinates

---
 lib/src/private/src/mli_check.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index bf76b99..11f42f3 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2789,7 +2789,7 @@ mli_status mli_chk_point_to_subtensor(const mli_tensor *in, const mli_point_to_s
     if (MLI_CHECK(out != NULL , "Bad Output tensor  pointer")) return MLI_STATUS_BAD_TENSOR;
 
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
-    if (MLI_CHECK(cfg->coord_num <= in->rank, "incorrect number of coordinates"))
+    if (MLI_CHECK(cfg->coord_num > 0 && cfg->coord_num <= in->rank, "incorrect number of coordinates"))
         return MLI_STATUS_BAD_FUNC_CFG;
 
     for (int i = 0; i < cfg->coord_num; i++) {
-- 
2.43.0


From 61ebff50b832d5684fd1b2fcfa6c90bb6be269a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:19 +0000
Subject: [PATCH 05/36] fix: compare whole data pointers when testing buffers
 for overlap

---
 lib/src/private/src/mli_check.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 11f42f3..ff84543 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -244,8 +244,8 @@ bool mli_tensor_is_scalar (const mli_tensor * in) {
 }
 
 bool mli_chk_containers_not_overlapped(const mli_data_container & data1, const mli_data_container & data2) {
-    if ((data1.mem.i32 >= (data2.mem.i32 + (int)(data2.capacity))) ||
-        (data2.mem.i32 >= (data1.mem.i32 + (int)(data1.capacity)))) {
+    if ((data1.mem.pi8 >= (data2.mem.pi8 + data2.capacity)) ||
+        (data2.mem.pi8 >= (data1.mem.pi8 + data1.capacity))) {
         return true;
     }
     return false;
-- 
2.43.0


From 75eb57d14c992763b7a9b78c877fb8a358aed441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:26 +0000
Subject: [PATCH 06/36] fix: require a two-dimensional argmax output as
 documented

---
 lib/src/private/src/mli_check.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index ff84543..e24a80a 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2954,6 +2954,7 @@ mli_status mli_chk_argmax(const mli_tensor *in, const mli_argmax_cfg *cfg, mli_t
     if (fail) return MLI_STATUS_BAD_FUNC_CFG;
 
     // Check out shape
+    fail |= MLI_CHECK(out->rank == 2, "Wrong output rank");
     fail |= MLI_CHECK(out->shape[0] == dim_size, "Out shape[0] should equal dim size");
     fail |= MLI_CHECK((int)out->shape[1] == cfg->topk, "Out shape[1] should equal topk");
     if (fail) return MLI_STATUS_SHAPE_MISMATCH;
-- 
2.43.0


From a2b31bb79309c71862543279245047c2557c6e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:33 +0000
Subject: [PATCH 07/36] fix: require the permuted output to have the rank of
 the input

---
 lib/src/private/src/mli_check.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index e24a80a..d9e02c1 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2662,6 +2662,9 @@ mli_status mli_chk_permute (const mli_tensor * in, const mli_permute_cfg * cfg,
     // Check config structure
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
 
+    if (MLI_CHECK(out->rank == in->rank, "Wrong output rank"))
+        return MLI_STATUS_SHAPE_MISMATCH;
+
     for (int idx = 0; idx < (int)in->rank; idx++) {
         if (MLI_CHECK(cfg->perm_dim[idx] < in->rank, "Rank mismatch"))
             return MLI_STATUS_BAD_FUNC_CFG;
-- 
2.43.0


From a4b8a6c49df20dfa65a554b5c70f1140f94e1146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:40 +0000
Subject: [PATCH 08/36] fix: validate data movement configurations for every
 element type

---
 lib/src/private/src/mli_check.cc | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index d9e02c1..167e258 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2845,6 +2845,15 @@ mli_status mli_chk_data_movement(const mli_tensor *in, const mli_mov_cfg_t *cfg,
 
     if (MLI_CHECK(out != NULL, "Bad tensor null pointer")) return MLI_STATUS_BAD_TENSOR;
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
+    //check that the configurations are valid
+    for (uint32_t i=0; i < in->rank; i++) {
+        if (MLI_CHECK((cfg->size[i] + cfg->offset[i]) <= in->shape[i] + cfg->padding_pre[i] + cfg->padding_post[i],"Size is larger than padded input"))
+            return MLI_STATUS_BAD_FUNC_CFG;
+        if (MLI_CHECK(cfg->sub_sample_step[i] > 0,"sub_sample_step should be greater than 0"))
+            return MLI_STATUS_BAD_FUNC_CFG;
+        if (MLI_CHECK(cfg->perm_dim[i] < in->rank,"permute out of range"))
+            return MLI_STATUS_BAD_FUNC_CFG;
+    }
     if ((in->el_type == MLI_EL_SA_8 || in->el_type == MLI_EL_SA_32) && (in->el_params.sa.dim != -1)) {
         bool fail = false;
         if (out->el_params.sa.zero_point.mem.pi16 == in->el_params.sa.zero_point.mem.pi16)
@@ -2862,16 +2871,6 @@ mli_status mli_chk_data_movement(const mli_tensor *in, const mli_mov_cfg_t *cfg,
                     && (out->el_params.sa.scale_frac_bits.mem.pi8 == nullptr),
                     "El_params data for out tensor wasn`t initialized in a consistent way");
 
-        //check that the configurations are valid
-        for (uint32_t i=0; i < in->rank; i++) {
-            if (MLI_CHECK((cfg->size[i] + cfg->offset[i]) <= in->shape[i] + cfg->padding_pre[i] + cfg->padding_post[i],"Size is larger than padded input"))
-                return MLI_STATUS_BAD_FUNC_CFG;
-            if (MLI_CHECK(cfg->sub_sample_step[i] > 0,"sub_sample_step should be greater than 0"))
-                return MLI_STATUS_BAD_FUNC_CFG;
-            if (MLI_CHECK(cfg->perm_dim[i] < in->rank,"permute out of range"))
-                return MLI_STATUS_BAD_FUNC_CFG;
-        }
-
         int32_t in_dim = in->el_params.sa.dim;
         int32_t out_dim = 0;
         for (int dim = 0; dim < (int)in->rank; dim++) {
-- 
2.43.0


From a9001d93d8838b91d316da27fce98735f5e34caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:46 +0000
Subject: [PATCH 09/36] fix: treat every negative quantization axis as
 per-tensor in the data movement check

---
 lib/src/private/src/mli_check.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 167e258..fea2ec0 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2854,7 +2854,7 @@ mli_status mli_chk_data_movement(const mli_tensor *in, const mli_mov_cfg_t *cfg,
         if (MLI_CHECK(cfg->perm_dim[i] < in->rank,"permute out of range"))
             return MLI_STATUS_BAD_FUNC_CFG;
     }
-    if ((in->el_type == MLI_EL_SA_8 || in->el_type == MLI_EL_SA_32) && (in->el_params.sa.dim != -1)) {
+    if ((in->el_type == MLI_EL_SA_8 || in->el_type == MLI_EL_SA_32) && (in->el_params.sa.dim >= 0)) {
         bool fail = false;
         if (out->el_params.sa.zero_point.mem.pi16 == in->el_params.sa.zero_point.mem.pi16)
             fail |= MLI_CHECK((out->el_params.sa.scale.mem.pi16 == in->el_params.sa.scale.mem.pi16)
-- 
2.43.0


From 1a1da865b11ce52c594c3cdcf8c57bb54bed9cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:53 +0000
Subject: [PATCH 10/36] fix: apply prelu and L2 normalization to the whole
 tensor for every negative axis

---
 lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h | 2 +-
 lib/src/kernels/transform/mli_krn_prelu.cc                | 6 +++---
 lib/src/private/src/mli_check.cc                          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h b/lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h
index 4785a94..9400ec7 100644
--- a/lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h
+++ b/lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h
@@ -192,7 +192,7 @@ static MLI_FORCE_INLINE mli_status mli_krn_l2_normalize_run(const mli_tensor *in
     }
 
     /* Per Tensor Case */
-    if ( cfg->axis == -1 ) {
+    if ( cfg->axis < 0 ) {
         int shape = mli_prv_squash_tensor_to_one_dim(in, out);
         if (shape) {
             int norm_shift;
diff --git a/lib/src/kernels/transform/mli_krn_prelu.cc b/lib/src/kernels/transform/mli_krn_prelu.cc
index 16749cc..88f1ad8 100644
--- a/lib/src/kernels/transform/mli_krn_prelu.cc
+++ b/lib/src/kernels/transform/mli_krn_prelu.cc
@@ -26,7 +26,7 @@ mli_status mli_krn_prelu_fx8(const mli_tensor *in,
     if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
     
-    if (cfg->axis == -1) {
+    if (cfg->axis < 0) {
         return mli_krn_leaky_relu_fx8(in, slope_coeff, out);
     } else {
         return mli::krn::prelu_fx_run<int8_t>(in, slope_coeff, cfg, out);
@@ -41,7 +41,7 @@ mli_status mli_krn_prelu_fx16(const mli_tensor *in,
     if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
 
-    if (cfg->axis == -1) {
+    if (cfg->axis < 0) {
         return mli_krn_leaky_relu_fx16(in, slope_coeff, out);
     } else {
         return mli::krn::prelu_fx_run<int16_t>(in, slope_coeff, cfg, out);
@@ -56,7 +56,7 @@ mli_status mli_krn_prelu_sa8(const mli_tensor *in,
     if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
 
-    if (cfg->axis == -1) {
+    if (cfg->axis < 0) {
         return mli_krn_leaky_relu_sa8(in, slope_coeff, out);
     } else {
         return mli::krn::prelu_sa8_run(in, slope_coeff, cfg, out);
diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index fea2ec0..6db1ba4 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -1936,7 +1936,7 @@ mli_status mli_chk_prelu (
     stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
     if (stat != MLI_STATUS_OK) return stat;
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
-    if (cfg->axis == -1) {
+    if (cfg->axis < 0) {
         // Check that slope tensors is valid scalar
         stat = MLI_CHECK_STATUS(mli_chk_scalar_tensor (slope_coeff), "Slope should be scalar tensor");
     } else {
@@ -1954,7 +1954,7 @@ mli_status mli_chk_prelu (
     if (MLI_CHECK(cfg->axis < (int)in->rank, "Wrong Axis Configuration")) return MLI_STATUS_BAD_FUNC_CFG;
     fail |= MLI_CHECK(check_inner_most_dimension_is_one(in),
                       "Memory stride of the innermost dimension should be equal to 1 for the input tensor");
-    if (cfg->axis != -1) {
+    if (cfg->axis >= 0) {
         fail |= MLI_CHECK(check_inner_most_dimension_is_one(slope_coeff),
                       "Memory stride of the innermost dimension should be equal to 1 for the slope_coeff tensor");
         /* slope tensor must be of the same shape of input tensor at axis and others should be 1 */
-- 
2.43.0


From fb791bb781ff54417e77811150968807a268d9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:33 +0000
Subject: [PATCH 11/36] fix: group conv check divides by the weights depth only
 once the ranks are known

---
 lib/src/private/src/mli_check.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 6db1ba4..018b186 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -757,6 +757,7 @@ mli_status mli_chk_group_conv2d_hwcn(
     fail |= MLI_CHECK(weights->rank == 4, "Wrong weights rank");
     fail |= MLI_CHECK(bias->rank == 1, "Wrong bias rank");
     fail |= MLI_CHECK(bias->shape[0] == weights->shape[KRNL_C_DIM_HWCN], "Shape mismatch bias and weights");
+    if (fail) return MLI_STATUS_SHAPE_MISMATCH;
 
     int group_count = in->shape[FMAP_C_DIM_HWC] / weights->shape[KRNL_D_DIM_HWCN];
     fail |= MLI_CHECK(in->shape[FMAP_C_DIM_HWC] % weights->shape[KRNL_D_DIM_HWCN] == 0, "Input channel count must be multiple of group count");
-- 
2.43.0


From bd0526b03fc25cf8b645bc118fa8fc32ccaf5afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:53 +0000
Subject: [PATCH 12/36] fix: data movement check rejects a quantization
 dimension outside the tensor rank

---
 lib/src/private/src/mli_check.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 018b186..3bfb2bf 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2857,6 +2857,8 @@ mli_status mli_chk_data_movement(const mli_tensor *in, const mli_mov_cfg_t *cfg,
     }
     if ((in->el_type == MLI_EL_SA_8 || in->el_type == MLI_EL_SA_32) && (in->el_params.sa.dim >= 0)) {
         bool fail = false;
+        if (MLI_CHECK(in->el_params.sa.dim < (int32_t)in->rank,
+                      "tensor quantization dimension should be less than tensor rank")) return MLI_STATUS_BAD_TENSOR;
         if (out->el_params.sa.zero_point.mem.pi16 == in->el_params.sa.zero_point.mem.pi16)
             fail |= MLI_CHECK((out->el_params.sa.scale.mem.pi16 == in->el_params.sa.scale.mem.pi16)
                     && (out->el_params.sa.scale_frac_bits.mem.pi8 == in->el_params.sa.scale_frac_bits.mem.pi8),
-- 
2.43.0


From bc7cdf13ec4d1e1acca426786f40916ca6ab1a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:00 +0000
Subject: [PATCH 13/36] fix: create_lut functions validate the lut before
 writing it

---
 lib/src/kernels/transform/mli_krn_l2_normalize.cc | 2 +-
 lib/src/kernels/transform/mli_krn_sigm_fx.cc      | 2 +-
 lib/src/kernels/transform/mli_krn_softmax_fx.cc   | 2 +-
 lib/src/kernels/transform/mli_krn_tanh_fx.cc      | 2 +-
 lib/src/private/src/mli_check.cc                  | 3 ++-
 5 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/src/kernels/transform/mli_krn_l2_normalize.cc b/lib/src/kernels/transform/mli_krn_l2_normalize.cc
index 5c86d61..87b0658 100644
--- a/lib/src/kernels/transform/mli_krn_l2_normalize.cc
+++ b/lib/src/kernels/transform/mli_krn_l2_normalize.cc
@@ -49,11 +49,11 @@ int32_t mli_krn_l2_normalize_get_lut_size() {
 }
 
 mli_status mli_krn_l2_normalize_create_lut(mli_lut *lut) {
-    lut->type = invsqrt_lut_fx16.type;
     mli_status ret = MLI_CHECK_STATUS(mli_chk_lut(lut, invsqrt_lut_fx16.data.capacity), __func__);
     if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
 
+    lut->type = invsqrt_lut_fx16.type;
     memcpy(lut->data.mem.pi16, invsqrt_lut_fx16.data.mem.pi16, invsqrt_lut_fx16.length * sizeof(int16_t));
     lut->in_frac_bits = invsqrt_lut_fx16.in_frac_bits;
     lut->length = invsqrt_lut_fx16.length;
diff --git a/lib/src/kernels/transform/mli_krn_sigm_fx.cc b/lib/src/kernels/transform/mli_krn_sigm_fx.cc
index bef3175..59c60c0 100644
--- a/lib/src/kernels/transform/mli_krn_sigm_fx.cc
+++ b/lib/src/kernels/transform/mli_krn_sigm_fx.cc
@@ -81,11 +81,11 @@ int32_t mli_krn_sigm_get_lut_size() {
 }
 
 mli_status mli_krn_sigm_create_lut(mli_lut *lut) {
-    lut->type = sigmoid_lut_fx16.type;
     mli_status ret = MLI_CHECK_STATUS(mli_chk_lut(lut, sigmoid_lut_fx16.data.capacity), __func__);
     if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
 
+    lut->type = sigmoid_lut_fx16.type;
     memcpy(lut->data.mem.pi16, sigmoid_lut_fx16.data.mem.pi16, sigmoid_lut_fx16.length * sizeof(int16_t));
     lut->in_frac_bits = sigmoid_lut_fx16.in_frac_bits;
     lut->length = sigmoid_lut_fx16.length;
diff --git a/lib/src/kernels/transform/mli_krn_softmax_fx.cc b/lib/src/kernels/transform/mli_krn_softmax_fx.cc
index 9f9fbc6..4a1fa0c 100644
--- a/lib/src/kernels/transform/mli_krn_softmax_fx.cc
+++ b/lib/src/kernels/transform/mli_krn_softmax_fx.cc
@@ -57,11 +57,11 @@ int32_t mli_krn_softmax_get_lut_size() {
 }
 
 mli_status mli_krn_softmax_create_lut(mli_lut *lut) {
-    lut->type = expneg_lut_fx16.type;
     mli_status ret = MLI_CHECK_STATUS(mli_chk_lut(lut, expneg_lut_fx16.data.capacity), __func__);
     if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
 
+    lut->type = expneg_lut_fx16.type;
     memcpy(lut->data.mem.pi16, expneg_lut_fx16.data.mem.pi16, expneg_lut_fx16.length * sizeof(int16_t));
     lut->in_frac_bits = expneg_lut_fx16.in_frac_bits;
     lut->length = expneg_lut_fx16.length;
diff --git a/lib/src/kernels/transform/mli_krn_tanh_fx.cc b/lib/src/kernels/transform/mli_krn_tanh_fx.cc
index b2868c0..12d5948 100644
--- a/lib/src/kernels/transform/mli_krn_tanh_fx.cc
+++ b/lib/src/kernels/transform/mli_krn_tanh_fx.cc
@@ -81,11 +81,11 @@ int32_t mli_krn_tanh_get_lut_size() {
 }
 
 mli_status mli_krn_tanh_create_lut(mli_lut *lut) {
-    lut->type = tanh_lut_fx16.type;
     mli_status ret = MLI_CHECK_STATUS(mli_chk_lut(lut, tanh_lut_fx16.data.capacity), __func__);
     if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
 
+    lut->type = tanh_lut_fx16.type;
     memcpy(lut->data.mem.pi16, tanh_lut_fx16.data.mem.pi16, tanh_lut_fx16.length * sizeof(int16_t));
     lut->in_frac_bits = tanh_lut_fx16.in_frac_bits;
     lut->length = tanh_lut_fx16.length;
diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 3bfb2bf..c6c45f2 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -108,7 +108,8 @@ mli_status mli_chk_lut(const mli_lut * lut, int buff_size) {
     }
 #if (PLATFORM == V2DSP_XY) || (PLATFORM == V2DSP_VECTOR)
     void *p = (void*)lut->data.mem.pi16;
-    mli_tensor dummy = { .el_type = lut->type };
+    // lut entries are 16 bit whatever the type field holds before the table has been created
+    mli_tensor dummy = { .el_type = MLI_EL_FX_16 };
     uint32_t align_mask = mli_hlp_tensor_element_size(&dummy) - 1;
 
     mli_status ret = mli_mem_chk_ptr(p, align_mask, /*check_bank=*/true);
-- 
2.43.0


From 30343db6f711bcaff76208bc1057a3e419dd31dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:44 +0000
Subject: [PATCH 14/36] fix: mli_hlp_convert_tensor returns the status of the
 float conversion

---
 lib/src/helpers/src/mli_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/helpers/src/mli_helpers.cc b/lib/src/helpers/src/mli_helpers.cc
index d9a9e69..83e35df 100644
--- a/lib/src/helpers/src/mli_helpers.cc
+++ b/lib/src/helpers/src/mli_helpers.cc
@@ -284,7 +284,7 @@ mli_status mli_hlp_convert_tensor(const mli_tensor * src, mli_tensor * dst) {
             ret = MLI_STATUS_TYPE_MISMATCH;
         }
     }
-    return MLI_STATUS_OK;
+    return ret;
 }
 
 const char* mli_hlp_compile_options_string() {
-- 
2.43.0


From eb81f1daadb4001dbecc6d72da490e081a4aaf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:50 +0000
Subject: [PATCH 15/36] fix: mli_hlp_point_to_subtensor advances the FP_32 data
 pointer

---
 lib/src/helpers/src/mli_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/helpers/src/mli_helpers.cc b/lib/src/helpers/src/mli_helpers.cc
index 83e35df..54d8d5c 100644
--- a/lib/src/helpers/src/mli_helpers.cc
+++ b/lib/src/helpers/src/mli_helpers.cc
@@ -148,7 +148,7 @@ mli_status mli_hlp_point_to_subtensor(const mli_tensor *in, const mli_point_to_s
         out->data.mem.pi16 = in->data.mem.pi16 + size;
         break;
     case MLI_EL_FP_32:
-        out->data.mem.f32 = in->data.mem.f32 + size;
+        out->data.mem.pf32 = in->data.mem.pf32 + size;
         break;
     case MLI_EL_SA_32:
         out->data.mem.pi32 = in->data.mem.pi32 + size;
-- 
2.43.0


From 715fe030d16f5bd32ed6221495e1bd8aa2ba9e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:34 +0000
Subject: [PATCH 16/36] fix: acquire only hands out channels inside the
 configured DMA pool

---
 lib/src/move/mli_mov_api.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/move/mli_mov_api.cc b/lib/src/move/mli_mov_api.cc
index 40f95c1..9fb98a4 100644
--- a/lib/src/move/mli_mov_api.cc
+++ b/lib/src/move/mli_mov_api.cc
@@ -383,7 +383,8 @@ mli_status mli_mov_acquire_handle(int num_ch, mli_mov_handle_t* h) {
     mli_status retval = MLI_STATUS_NOT_ENGH_MEM; // TODO: add status for not enough dma channels
     MLI_ASSERT(h != NULL);
     // find first available channel, and check if enough adjacent channels are available.
-    for (int i = dma_pool.base_channel; i < dma_pool.base_channel + dma_pool.pool_size; i++) {
+    const int pool_end = dma_pool.base_channel + dma_pool.pool_size;
+    for (int i = dma_pool.base_channel; i < pool_end && i + num_ch <= pool_end; i++) {
         bool found = true;
         for (int ch_cnt = 0; ch_cnt < num_ch; ch_cnt++) {
             found &= (dma_pool.channel_status[i + ch_cnt] == MLI_MOV_DMA_CH_AVAILABLE);
-- 
2.43.0


From c66581617d989b3bc5d8e688fa09bca1f548a6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:28 +0000
Subject: [PATCH 17/36] fix: depthwise convolution moves to the next batch of
 the tile in every iteration

---
 .../convolution/mli_krn_depthwise_conv2d_runtime.cc       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc b/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
index 0ad28b2..4cf5015 100644
--- a/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
+++ b/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
@@ -82,16 +82,16 @@ mli_status DepthwiseConv2d::Issue() {
     InternalBuffer out_buf = m_tile_output.get_buf();
     InternalBuffer curr_inp_buf(inp_buf);
     InternalBuffer curr_out_buf(out_buf);
-    m_tile_input.set_buf(curr_inp_buf);
-    m_tile_output.set_buf(curr_out_buf);
 
-    QTensor<InternalBuffer, kDepthwiseIORank> qinput{
-      m_tile_input, m_metadata.inpzp_buffer, m_metadata.inp_quant_axis};
     QTensor<InternalBuffer, kDepthwiseWRank> qweights{
       m_tile_weights, m_tile_wzp.get_buf(), m_metadata.wts_quant_axis};
 
 
     for (uint32_t i = 0; i < m_tile_batch_size; i++) {
+      m_tile_input.set_buf(curr_inp_buf);
+      m_tile_output.set_buf(curr_out_buf);
+      QTensor<InternalBuffer, kDepthwiseIORank> qinput{
+        m_tile_input, m_metadata.inpzp_buffer, m_metadata.inp_quant_axis};
       conv2d_prepare_and_run<int8_t, int8_t, int32_t, mli_8x8_accu_t, LAYOUT_HWC,
                             ::mli::CONV_DEPTHWISE, kDepthwiseIORank,
                             kDepthwiseWRank, DwConv2DConfig>(
-- 
2.43.0


From 65ca4960313899382f2ccf5c264104d2cd390265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:32 +0000
Subject: [PATCH 18/36] fix: depthwise convolution Update takes over the batch
 size of the new tile

---
 lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc b/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
index 4cf5015..deab130 100644
--- a/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
+++ b/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
@@ -121,6 +121,7 @@ mli_status DepthwiseConv2d::Update() {
   const auto input_tile_tensor = m_metadata.input.GetSubTensor();
   uint32_t input_tile_shape[kDepthwiseIORank];
   input_tile_tensor.get_dims(input_tile_shape);
+  m_tile_batch_size = input_tile_shape[kGroupTensorBatchDim];
   input_tile_shape[kGroupTensorBatchDim] = 1;
   m_tile_input = Tensor<InternalBuffer, kDepthwiseIORank>(m_tile_input, input_tile_shape);
 
-- 
2.43.0


From f743501040c5b67359133db4c3519b456f2236a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:36 +0000
Subject: [PATCH 19/36] fix: ReduceMax starts with the first tile instead of
 the full tensor

---
 lib/src/kernels/conversion/mli_reduce_max_runtime.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/conversion/mli_reduce_max_runtime.cc b/lib/src/kernels/conversion/mli_reduce_max_runtime.cc
index 8540068..e722b5a 100644
--- a/lib/src/kernels/conversion/mli_reduce_max_runtime.cc
+++ b/lib/src/kernels/conversion/mli_reduce_max_runtime.cc
@@ -33,6 +33,7 @@ ReduceMax::ReduceMax(void* kernel_private_data_buffer, size_t size, uint64_t mem
     m_reduce_axis = private_buffer.reduce_axis;
 
     // construct Input tensor
+    const auto input_tile_tensor = m_input.GetSubTensor();
     m_tile_input.rank = private_buffer.io_rank;
     InternalBuffer input_internal(private_buffer.input.get_buf(), membases, num_mems);
     if(m_in_elem_size == sizeof(int32_t)){
@@ -49,12 +50,13 @@ ReduceMax::ReduceMax(void* kernel_private_data_buffer, size_t size, uint64_t mem
     }
 
     for(unsigned int i = 0; i < m_tile_input.rank ; i++){
-        m_tile_input.shape[i] = private_buffer.input.get_dim(i);
+        m_tile_input.shape[i] = input_tile_tensor.get_dim(i);
         m_tile_input.mem_stride[i] = private_buffer.input.get_mem_stride(i);
     }
 
 
     // construct Output tensor
+    const auto output_tile_tensor = m_output.GetSubTensor();
     m_tile_output.rank = private_buffer.io_rank;
     InternalBuffer output_internal(private_buffer.output.get_buf(), membases, num_mems);
     if(m_out_elem_size == sizeof(int32_t)){
@@ -71,7 +73,7 @@ ReduceMax::ReduceMax(void* kernel_private_data_buffer, size_t size, uint64_t mem
     }
     
     for(unsigned int i = 0; i < m_tile_output.rank ; i++){
-        m_tile_output.shape[i] = private_buffer.output.get_dim(i);
+        m_tile_output.shape[i] = output_tile_tensor.get_dim(i);
         m_tile_output.mem_stride[i] = private_buffer.output.get_mem_stride(i);
     }
 }
-- 
2.43.0


From c9e769f3a535778fa447b97f0124ac6d1b2e15d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:55 +0000
Subject: [PATCH 20/36] fix: matmul GetIOSizesAndOffsets returns the position
 of the right input

---
 lib/src/kernels/convolution/mli_krn_matmul_runtime.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc b/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc
index b4acf02..81b610d 100644
--- a/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc
+++ b/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc
@@ -92,7 +92,7 @@ void MatMul::GetIOSizesAndOffsets(uint32_t input_left_size[kMatMulRank], uint32_
                                   int32_t output_offsets[kMatMulRank]) const{
   
   m_input_left.get_pos(input_left_offsets);
-  m_input_left.get_pos(input_right_offsets);
+  m_input_right.get_pos(input_right_offsets);
   m_output.get_pos(output_offsets);
   
   m_tile_input_left.get_dims(input_left_size);
-- 
2.43.0


From 769ca8f4fcdae4618c173ce9029fffda1698480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:03 +0000
Subject: [PATCH 21/36] fix: depthwise GetIOSizesAndOffsets reports all batches
 of the tile

---
 .../kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc b/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
index deab130..d323ed0 100644
--- a/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
+++ b/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
@@ -199,6 +199,10 @@ void DepthwiseConv2d::GetIOSizesAndOffsets(uint32_t input_size[kDepthwiseIORank]
   m_tile_input.get_dims(input_size);
   m_tile_weights.get_dims(weights_size);
   m_tile_output.get_dims(output_size);
+
+  // the tile tensors describe a single batch, Issue() processes all batches of the tile
+  input_size[kGroupTensorBatchDim] = m_tile_batch_size;
+  output_size[kGroupTensorBatchDim] = m_tile_batch_size;
 }
 
 }  // namespace snps_arc::metaware::mli::ref
\ No newline at end of file
-- 
2.43.0


From 877bd9065d543db4475919e53c9a1fa2771f6314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:47 +0000
Subject: [PATCH 22/36] fix: Rescale reads int8 inputs as int8 when the output
 is int32

---
 lib/src/kernels/conversion/mli_krn_rescale_runtime.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
index 855e7cb..dd1e0ab 100644
--- a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
+++ b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
@@ -206,7 +206,7 @@ mli_status Rescale::Issue() {
                 MLI_ASSERT(0);
             }
             else if (out_elem_size == sizeof(int32_t)) {
-              mli_krn::mli_krn_rescale<int32_t, int32_t>(&m_tile_metadata.input,
+              mli_krn::mli_krn_rescale<int8_t, int32_t>(&m_tile_metadata.input,
                                                          &m_tile_metadata.in_bias,
                                                          &m_tile_metadata.scale,
                                                          &m_tile_metadata.shift,
-- 
2.43.0


From f425a0468b4b3e6ae2fe6980a847356d0d2df587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:15 +0000
Subject: [PATCH 23/36] fix: define the quantization parameters of the MLI 3
 Add, Sub, Max and Min tile tensors

---
 include/api/mli_ref_runtime_api.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/api/mli_ref_runtime_api.hpp b/include/api/mli_ref_runtime_api.hpp
index d57471f..87e82f4 100644
--- a/include/api/mli_ref_runtime_api.hpp
+++ b/include/api/mli_ref_runtime_api.hpp
@@ -460,9 +460,9 @@ private:
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_left;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_right;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_output;
-    mli_tensor m_tile_input_left;
-    mli_tensor m_tile_input_right;
-    mli_tensor m_tile_output;
+    mli_tensor m_tile_input_left{};
+    mli_tensor m_tile_input_right{};
+    mli_tensor m_tile_output{};
     uint32_t m_i_elem_size;
     uint32_t m_o_elem_size;
 
@@ -516,9 +516,9 @@ private:
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_left;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_right;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_output;
-    mli_tensor m_tile_input_left;
-    mli_tensor m_tile_input_right;
-    mli_tensor m_tile_output;
+    mli_tensor m_tile_input_left{};
+    mli_tensor m_tile_input_right{};
+    mli_tensor m_tile_output{};
     uint32_t m_i_elem_size;
     uint32_t m_o_elem_size;
 
@@ -629,9 +629,9 @@ private:
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_left;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_right;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_output;
-    mli_tensor m_tile_input_left;
-    mli_tensor m_tile_input_right;
-    mli_tensor m_tile_output;
+    mli_tensor m_tile_input_left{};
+    mli_tensor m_tile_input_right{};
+    mli_tensor m_tile_output{};
     uint32_t m_i_elem_size;
     uint32_t m_o_elem_size;
 
@@ -685,9 +685,9 @@ private:
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_left;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_right;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_output;
-    mli_tensor m_tile_input_left;
-    mli_tensor m_tile_input_right;
-    mli_tensor m_tile_output;
+    mli_tensor m_tile_input_left{};
+    mli_tensor m_tile_input_right{};
+    mli_tensor m_tile_output{};
     uint32_t m_i_elem_size;
     uint32_t m_o_elem_size;
 
-- 
2.43.0


From e58a371ec6c12e8acd154fd4293c0d5114262e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:28 +0000
Subject: [PATCH 24/36] fix: define the quantization parameters of the MLI 3
 Permute tile tensors

---
 include/internal/mli_ref_private_types.hpp         | 4 ++--
 lib/src/kernels/diverse/mli_krn_permute_runtime.cc | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/internal/mli_ref_private_types.hpp b/include/internal/mli_ref_private_types.hpp
index 9856d89..c9c1836 100644
--- a/include/internal/mli_ref_private_types.hpp
+++ b/include/internal/mli_ref_private_types.hpp
@@ -293,8 +293,8 @@ struct PermuteMetadata
 {
     TensorIterator<OffsetBuffer, kPermuteRank, kPermuteIterRank> m_input;
     TensorIterator<OffsetBuffer, kPermuteRank, kPermuteIterRank> m_output;
-    mli_tensor m_tile_input;
-    mli_tensor m_tile_output;
+    mli_tensor m_tile_input{};
+    mli_tensor m_tile_output{};
 };
 
 class ReduceSumPrivateData : public PrivateData {
diff --git a/lib/src/kernels/diverse/mli_krn_permute_runtime.cc b/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
index c103cc5..f49da11 100644
--- a/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
+++ b/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
@@ -44,6 +44,7 @@ Permute::Permute(void* kernel_private_data_buffer, size_t size, uint64_t membase
     m_metadata.m_tile_input.rank = private_buffer.io_rank;
     if(m_in_elem_size == sizeof(int32_t)) {
         m_metadata.m_tile_input.el_type = MLI_EL_SA_32;
+        m_metadata.m_tile_input.el_params.sa.dim = -1;
         mli_prv_tensor_set_data_ptr(&m_metadata.m_tile_input, input_internal.get_ptr<int32_t>());
     }
 	else if(m_in_elem_size == sizeof(int16_t)) {
@@ -52,6 +53,7 @@ Permute::Permute(void* kernel_private_data_buffer, size_t size, uint64_t membase
     }
 	else if(m_in_elem_size == sizeof(int8_t)) {
         m_metadata.m_tile_input.el_type = MLI_EL_SA_8;
+        m_metadata.m_tile_input.el_params.sa.dim = -1;
         mli_prv_tensor_set_data_ptr(&m_metadata.m_tile_input, input_internal.get_ptr<int8_t>());
     }
 	else {
@@ -73,6 +75,7 @@ Permute::Permute(void* kernel_private_data_buffer, size_t size, uint64_t membase
     m_metadata.m_tile_output.rank = private_buffer.io_rank;
     if(m_out_elem_size == sizeof(int32_t)) {
         m_metadata.m_tile_output.el_type = MLI_EL_SA_32;
+        m_metadata.m_tile_output.el_params.sa.dim = -1;
         mli_prv_tensor_set_data_ptr(&m_metadata.m_tile_output, output_internal.get_ptr<int32_t>());
     }
 	else if(m_out_elem_size == sizeof(int16_t)) {
@@ -81,6 +84,7 @@ Permute::Permute(void* kernel_private_data_buffer, size_t size, uint64_t membase
     }
 	else if(m_out_elem_size == sizeof(int8_t)) {
         m_metadata.m_tile_output.el_type = MLI_EL_SA_8;
+        m_metadata.m_tile_output.el_params.sa.dim = -1;
         mli_prv_tensor_set_data_ptr(&m_metadata.m_tile_output, output_internal.get_ptr<int8_t>());
     }
 	else {
-- 
2.43.0


From bcb89009869e7ff243d85a738166e7586150fad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:40 +0000
Subject: [PATCH 25/36] fix: dropping an axis of an iterator configuration
 keeps the first and the middle increments in their own slots

---
 include/mli_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 96f8092..8eb94de 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -202,8 +202,8 @@ class IteratorCfg {
         m_first_size[j] = icfg.get_first_size(i);
         m_size[j] = icfg.get_size(i);
         m_last_size[j] = icfg.get_last_size(i);
-        m_pos_inc[j] = icfg.get_first_inc(i);
-        m_first_pos_inc[j] = icfg.get_inc(i);
+        m_pos_inc[j] = icfg.get_inc(i);
+        m_first_pos_inc[j] = icfg.get_first_inc(i);
         m_last_pos_inc[j] = icfg.get_last_inc(i);
         m_diff_code[j] = icfg.get_diff_code(i);
         j++;
-- 
2.43.0


From b67aa84ffac9f2666a26cde35bd175189b9b652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:59 +0000
Subject: [PATCH 26/36] fix: combining two tensor axes keeps the stride of the
 inner one

---
 include/mli_types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mli_types.hpp b/include/mli_types.hpp
index bd3b63e..874a70d 100644
--- a/include/mli_types.hpp
+++ b/include/mli_types.hpp
@@ -793,7 +793,7 @@ class Tensor {
           assert(mem_stride_[r] == (int)shape_[r+1]*mem_stride_[r+1]);
         }
         tns.set_dim(s, shape_[r]*shape_[r+1]);
-        tns.set_mem_stride(s, mem_stride_[r]);
+        tns.set_mem_stride(s, reverse_order ? mem_stride_[r] : mem_stride_[r+1]);
         ++r;
       }
       ++s;
-- 
2.43.0


From 619b3c81e74d44076c694ab4ba56e65a9b035f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:19 +0000
Subject: [PATCH 27/36] fix: slicing a tensor from its origin keeps its offset

---
 include/mli_types.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mli_types.hpp b/include/mli_types.hpp
index 874a70d..7761f53 100644
--- a/include/mli_types.hpp
+++ b/include/mli_types.hpp
@@ -720,6 +720,7 @@ class Tensor {
     
   Tensor<buf_T, maxRank> slice(uint32_t size[]) {
     Tensor<buf_T, maxRank> slice_tens(buf_, size, mem_stride_, rank_);
+    slice_tens.set_offs(offset_);
     return slice_tens;
   }
 
-- 
2.43.0


From 54fb29ca4555033f40768d844a7f12351fe83f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:34 +0000
Subject: [PATCH 28/36] fix: a buffer iterator defines the increments of
 skipped axes

---
 include/mli_iterator.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 8eb94de..59b2f2f 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -512,7 +512,11 @@ class BufferIterator {
     template <uint32_t tensorRank, class src_buf_T>
     BufferIterator(const Tensor<src_buf_T, tensorRank>& full_tensor,
                    const IteratorCfg<iterRank>& cfg)
-        : m_buffer_offset{0} {
+        : m_first_offset_inc{0},
+          m_offset_inc{0},
+          m_last_offset_inc{0},
+          m_buffer_dec{0},
+          m_buffer_offset{0} {
       m_buffer_size = 1;
       for (uint32_t i = 0; i < iterRank; i++) {
         int32_t axis = cfg.get_order(i);
-- 
2.43.0


From 86bbaa2bc731031827f260eb0ff4f3d54e87cfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:35 +0000
Subject: [PATCH 29/36] fix: an iterator converted from another one continues
 at the same buffer offset

---
 include/mli_iterator.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 59b2f2f..cc5f04e 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -606,6 +606,15 @@ class BufferIterator {
       return m_buffer_offset;
     }
 
+    /**
+     * @brief Set the offset in elements inside memory buffer
+     *
+     * @param buffer_offset [I] Offset in elements inside attached memory buffer
+     */
+    void SetBufferOffset(uint32_t buffer_offset) {
+      m_buffer_offset = buffer_offset;
+    }
+
     uint32_t GetLastInc(uint32_t axis){
       return m_last_offset_inc[axis];
     }
@@ -715,6 +724,7 @@ class TensorIterator {
       m_full_tensor = Tensor<buf_T, tensorRank>(buf_T(), tensor);
       m_config = tensor_iterator.get_config();
       m_offset = tensor_iterator.get_offset();
+      m_buffer_itr.SetBufferOffset(m_offset);
       tensor_iterator.get_pos(m_pos);
       tensor_iterator.get_tile_idx(m_tile_idx);
     }
@@ -727,6 +737,7 @@ class TensorIterator {
           m_config(tns_iter.get_config()),
           m_buffer_itr(m_full_tensor, m_config) {
       m_offset = tns_iter.get_offset();
+      m_buffer_itr.SetBufferOffset(m_offset);
       tns_iter.get_pos(m_pos);
       tns_iter.get_tile_idx(m_tile_idx);
     }
-- 
2.43.0


From a71a32caa4c8d1457e068b37af77e4e45b7d648b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:48 +0000
Subject: [PATCH 30/36] fix: the tiled buffer size of an iterator can be
 instantiated

---
 include/mli_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index cc5f04e..920cd2b 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -1006,7 +1006,7 @@ class TensorIterator {
 
     uint32_t ComputeTiledMaxBufferSize(){
       uint32_t tile_buf_shape[tensorRank];
-      uint32_t buf_mem_stride[tensorRank];
+      int32_t buf_mem_stride[tensorRank];
       if (m_config.get_buf_tiles_num() == 0) {
         for (uint32_t dim = 0; dim < tensorRank; dim++) {
           tile_buf_shape[dim] = m_full_tensor.get_dim(dim);
-- 
2.43.0


From 37f1a481c414ddad9fc88e90275b1edc10505915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:50 +0000
Subject: [PATCH 31/36] fix: subtensor without the quantization axis keeps the
 parameters of its slice

---
 lib/src/helpers/src/mli_helpers.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/src/helpers/src/mli_helpers.cc b/lib/src/helpers/src/mli_helpers.cc
index 54d8d5c..6fd9538 100644
--- a/lib/src/helpers/src/mli_helpers.cc
+++ b/lib/src/helpers/src/mli_helpers.cc
@@ -237,7 +237,17 @@ mli_status mli_hlp_create_subtensor(const mli_tensor *in, const mli_sub_tensor_c
     out->el_params = in->el_params;
 
     if (isAsym){
-        if (out->el_params.sa.dim >= 0) {
+        if (out->el_params.sa.dim >= 0 && out_asym_dim < 0) {
+            // the quantization axis is removed: the parameters of the selected slice apply to the whole tensor.
+            const int slice = cfg->offset[in->el_params.sa.dim];
+            out->el_params.sa.scale.mem.i16 = in->el_params.sa.scale.mem.pi16[slice];
+            out->el_params.sa.scale_frac_bits.mem.i8 = in->el_params.sa.scale_frac_bits.mem.pi8[slice];
+            out->el_params.sa.zero_point.mem.i16 = in->el_params.sa.zero_point.mem.pi16[slice];
+            out->el_params.sa.scale.capacity = 0;
+            out->el_params.sa.scale_frac_bits.capacity = 0;
+            out->el_params.sa.zero_point.capacity = 0;
+            out->el_params.sa.dim = -1;
+        } else if (out->el_params.sa.dim >= 0) {
             out->el_params.sa.scale.mem.pi16 += out_asym_offset;
             out->el_params.sa.scale_frac_bits.mem.pi8 += out_asym_offset;
             out->el_params.sa.dim = out_asym_dim;
-- 
2.43.0


From 76223270460e752acfbf63a42a0cbee7887b6df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:09 +0000
Subject: [PATCH 32/36] fix: FullyConnected_CS::EncodeWtsZeroPts takes the
 number of zero points from the only dimension of their tensor

---
 lib/src/kernels/common/impl/mli_krn_fully_connected_compiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/kernels/common/impl/mli_krn_fully_connected_compiler.cc b/lib/src/kernels/common/impl/mli_krn_fully_connected_compiler.cc
index 72ff152..dbf19c1 100644
--- a/lib/src/kernels/common/impl/mli_krn_fully_connected_compiler.cc
+++ b/lib/src/kernels/common/impl/mli_krn_fully_connected_compiler.cc
@@ -188,7 +188,7 @@ mli_status FullyConnected_CS::EncodeWtsZeroPts(const Tensor<Buffer, 1> &wtszerop
     else {
       MLI_ASSERT(encoded_wtszeropts.get_size() / encoded_wtszeropts.get_elem_size() ==
       m_weights.get_dim(kKernelFCChannelOutDim));
-      for (uint32_t i = 0; i < wtszeropts.get_dim(kKernelFCChannelOutDim); ++i) {
+      for (uint32_t i = 0; i < wtszeropts.get_dim(0); ++i) {
         encoded_wtszeropts.write(i, static_cast<int16_t>(wtszeropts.read<int8_t>(i)));
       }
     }
-- 
2.43.0


From 5dedfa6c9fa7e35b855885d959cd84770c0cb7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:57 +0000
Subject: [PATCH 33/36] fix: keep all bits when a 16 bit value is cast to a 40
 bit accumulator

mli_math_cast_fx<int16_t, mli_acc40_t> narrowed the shifted value to 32 bits
before returning it, so a left shift past bit 31 (a bias with few fraction
bits next to 16 bit operands with 15 fraction bits each) wrapped instead of
keeping its value.
---
 lib/src/pal/ref/mli_math.h | 952 ++++++++++++++++++-------------------
 1 file changed, 476 insertions(+), 476 deletions(-)

diff --git a/lib/src/pal/ref/mli_math.h b/lib/src/pal/ref/mli_math.h
index 5796b55..89df3a4 100644
--- a/lib/src/pal/ref/mli_math.h
+++ b/lib/src/pal/ref/mli_math.h
@@ -1,476 +1,476 @@
-/*
-* Copyright 2020-2022, Synopsys, Inc.
-* All rights reserved.
-*
-* This source code is licensed under the BSD-3-Clause license found in
-* the LICENSE file in the root directory of this source tree.
-*
-*/
-
-#ifndef _REF_MLI_MATH_H_
-#define _REF_MLI_MATH_H_
-
-#include <limits>
-#include <type_traits>
-#include "mli_debug.h"
-
-typedef int32_t mli_acc32_t;
-typedef int64_t mli_acc40_t;
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_asl_fx(T x, int nbits);
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_limit_fx(T sign) {
-    return sign < (T)0 ? std::numeric_limits<T>::lowest() : std::numeric_limits<T>::max();
-}
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_asr_pos_nbits_fx(T x, int nbits)
-{
-    int nbits_max = sizeof(T) * 8 - 1;
-    // This function is internal to this file
-    // and is required to avoid compiler issues.
-    if (nbits > nbits_max)
-        return x < (T)0 ? -1 : 0;
-    return x >> nbits;
-}
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_asr_fx(T x, int nbits)
-{
-    int nbits_max = sizeof(T) * 8 - 1;
-    int nbits_min = 0;
-    if (nbits > nbits_max)
-        return x < (T)0 ? -1 : 0;
-    if (nbits < nbits_min)
-        return mli_math_asl_fx<T>(x, (-nbits));
-    return x >> nbits;
-}
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_asl_fx(T x, int nbits)
-{
-    int inp_size = sizeof(T) * 8;
-    T hi = 0;
-
-    if (nbits < 0)
-        return mli_math_asr_pos_nbits_fx<T>(x, (-nbits));
-
-    if (nbits > (inp_size - 1))
-        return x != (T)0 ? mli_math_limit_fx<T>(x) : 0;
-
-    hi = x >> ((inp_size - 1) - nbits);
-    if (hi == (T)0 || hi == (T)-1)
-        return x << nbits;
-
-    return mli_math_limit_fx<T>(hi);
-}
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_asr_rnd_fx(T x, int nbits)
-{
-    using unsigned_T = typename std::make_unsigned<T>::type;
-    T r = 0;
-    unsigned_T one = 1u;
-    int nbits_max = sizeof(T) * 8 - 1;
-    int nbits_min = 0;
-
-    if (nbits < nbits_min)
-        return mli_math_asl_fx<T>(x, (-nbits));
-    if (nbits == nbits_min)
-        return x;
-
-    if (nbits > nbits_max)
-        return 0;
-
-    // Rounding up:
-    // if the most significant deleted bit is 1, add 1 to the remaining bits.
-#ifdef ROUND_MODE_UP
-    T round = (T)((one << nbits) >> 1);
-    r = mli_math_add_fx<T>(x, round);
-    r = mli_math_asr_fx<T>(r, nbits);
-#endif
-
-    // Convergent: rounding with half-way value rounded to even value.
-    // If the most significant deleted bit is 1, and 
-    // either the least significant of the remaining bits
-    // or at least one other deleted bit is 1, add 1 to the remaining bits.
-#ifdef ROUND_MODE_CONVERGENT
-    r = mli_math_asr_fx<T>(x, nbits);
-    T last_deleted_mask = (T)((one << nbits) >> 1);
-    if (((x & last_deleted_mask) != (T)0) && 
-            (((r & (T)1) != (T)0) ||  ((x & (last_deleted_mask-(T)1))!= (T)0))) {
-        return mli_math_add_fx<T>(r, 1);
-    }
-#endif
-
-    return r;
-}
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_asl_rnd_fx(T x, int nbits)
-{
-    return mli_math_asr_rnd_fx<T>(x, -nbits);
-}
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_neg_fx(T x) {
-    return x == std::numeric_limits<T>::lowest() ? std::numeric_limits<T>::max() : -x;
-}
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_sat_fx(T x, unsigned nbits)
-{
-    return mli_math_asr_fx<T>(mli_math_asl_fx<T>(x, nbits), nbits);
-}
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_abs_fx(T x)
-{    
-    return x >= (T)0 ? x : mli_math_neg_fx(x);
-}
-
-template <typename T, typename o_T>
-MLI_FORCE_INLINE o_T mli_math_norm_fx(T x)
-{
-    o_T inp_size = sizeof(T) * 8;
-    T hi = x < (T)0 ? (T)-1 : (T)0;
-    o_T r = 0;
-
-    if (x == (T)0)
-        return inp_size - 1;
-
-    while ((x >> r) != hi)
-        r++;
-    return (inp_size - 1) - r;
-}
-
-template<typename in_T, typename out_T>
-MLI_FORCE_INLINE out_T mli_math_norm_cast_fx(in_T val , int32_t *norm_shift) {
-    int32_t cast_shift = (sizeof(in_T) - sizeof(out_T)) * 8;
-    int32_t norm = mli_math_norm_fx<in_T, int32_t>(val);
-    *norm_shift = cast_shift - norm;
-    return mli_math_cast_fx<in_T, out_T>(val, *norm_shift);
-}
-
-// Addition of two fx operands with saturation
-//========================================================================
-template <typename T>
-MLI_FORCE_INLINE T mli_math_add_fx(T L, T R) {
-    if ((R > 0) && (L > std::numeric_limits<T>::max() - R)) // `L + R` would overflow
-        return std::numeric_limits<T>::max();
-    if ((R < 0) && (L < std::numeric_limits<T>::lowest() - R)) // `L + R` would underflow
-        return std::numeric_limits<T>::lowest();
-    return L + R;
-}
-
-// Subtraction of two fx operands with saturation
-//========================================================================
-template <typename T>
-MLI_FORCE_INLINE T mli_math_sub_fx(T L, T R) {
-    if ((R < 0) && (L > std::numeric_limits<T>::max() + R)) // `L - R` would overflow
-        return std::numeric_limits<T>::max();
-    if ((R > 0) && (L < std::numeric_limits<T>::lowest() + R)) // `L - R` would underflow
-        return std::numeric_limits<T>::lowest();
-    return L - R;
-}
-
-// Maximum of two fx operands
-//========================================================================
-template <typename io_T>
-MLI_FORCE_INLINE io_T mli_math_max_fx(io_T L, io_T R) {
-    return (L > R) ? L : R;
-}
-
-template <typename l_T, typename r_T>
-MLI_FORCE_INLINE l_T mli_math_max_fx(l_T L, r_T R) {
-    return (L > R) ? L : R;
-}
-
-// Minimum of two fx operands
-//========================================================================
-template <typename io_T>
-MLI_FORCE_INLINE io_T mli_math_min_fx(io_T L, io_T R) {
-     return (L < R) ? L : R;
-}
-
-// Multiply two operands
-//========================================================================
-template <typename in_T, typename acc_T>
-MLI_FORCE_INLINE acc_T mli_math_mul_fx(in_T L, in_T R) {
-    return L * R;
-}
-
-template <>
-MLI_FORCE_INLINE mli_acc32_t mli_math_mul_fx_high(int32_t L, int32_t R) {
-    // this function takes the MSB part of the result. (L * R) >> 31
-    // in optimized code check if mpyfr instruction is used here.
-    return (mli_acc32_t)(((int64_t)L * (int64_t)R + (int64_t)(1<<30)) >> 31);
-}
-
-template <>
-MLI_FORCE_INLINE int64_t mli_math_mul_fx(int32_t L, int32_t R) {
-    // Result of multiplication is fractional number (shifted left by 1)
-    // To return correct result we shift it right afterward
-    int64_t acc = (int64_t)L * (int64_t)R;
-    return (int64_t) acc;
-}
-
-// Cast scalar to/from void pointer
-//========================================================================
-template < typename out_T > 
-MLI_FORCE_INLINE out_T mli_math_cast_ptr_to_scalar_fx(void *src) {
-    // REMARK: Need to check from C/Cpp standard point of view
-    return static_cast < out_T > ((intptr_t) (src));
-}
-
-template < typename in_T > 
-MLI_FORCE_INLINE void *mli_math_cast_scalar_to_ptr_fx(in_T src) {
-    // REMARK: Need to check from C/Cpp standard point of view
-    intptr_t out_upcast = src;
-    return static_cast < void *>((intptr_t *) out_upcast);
-}
-
-// Comparators
-//========================================================================
-template < typename io_T > 
-MLI_FORCE_INLINE bool mli_prv_less_than_1(io_T value, uint8_t frac_bits) {
-    if (frac_bits >= sizeof(io_T) * 8 - 1)
-        return true;
-
-    io_T unit = (io_T) 1 << frac_bits;
-    return (value < unit);
-}
-
-// Accumulator shift
-//========================================================================
-
-template <>
-MLI_FORCE_INLINE mli_acc32_t mli_math_acc_ashift_fx(mli_acc32_t acc, int shift_right) {
-    return mli_math_asr_rnd_fx<mli_acc32_t>(acc, shift_right);
-}
-
-template <>
-MLI_FORCE_INLINE mli_acc40_t mli_math_acc_ashift_fx(mli_acc40_t acc, int shift_right) {
-    return mli_math_asr_rnd_fx<mli_acc40_t>(acc, shift_right);
-}
-
-// Arithmetic shift (right is default, left on the negative val)
-//========================================================================
-
-template <>
-MLI_FORCE_INLINE int8_t mli_math_ashift_right_fx(int8_t in_val, int shift_right) {
-    int8_t shifted_in_val = mli_math_asr_rnd_fx<int8_t>((int8_t)in_val, shift_right);
-    return shifted_in_val;
-}
-
-template <>
-MLI_FORCE_INLINE int16_t mli_math_ashift_right_fx(int16_t in_val, int shift_right) {
-    return mli_math_asr_rnd_fx<int16_t>(in_val, shift_right);
-}
-
-template <>
-MLI_FORCE_INLINE int32_t mli_math_ashift_right_fx(int32_t in_val, int shift_right) {
-    return mli_math_asr_rnd_fx<int32_t>(in_val, shift_right);
-}
-
-template <>
-MLI_FORCE_INLINE int64_t mli_math_ashift_right_fx(int64_t in_val, int shift_right) {
-    return mli_math_asr_rnd_fx<int64_t>(in_val, shift_right);
-}
-
-// Multiply and cast float to accum
-//========================================================================
-
-MLI_FORCE_INLINE int32_t mli_math_float_scale(float value, float scale) {
-    const float round_val = value > 0 ? 0.5f : -0.5f;
-    return (int32_t)(value * scale + round_val);
-}
-
-// Cast accum to output type
-//========================================================================
-template <>
-MLI_FORCE_INLINE int8_t mli_math_acc_cast_fx(mli_acc32_t acc, int shift_right) {
-    int32_t temp = (int32_t) mli_math_asr_rnd_fx<mli_acc32_t>(acc, shift_right);
-    temp = mli_math_asl_fx<int32_t>(temp, 24);
-    return (int8_t) (temp >> 24);
-}
-
-template <> 
-MLI_FORCE_INLINE int16_t mli_math_acc_cast_fx(mli_acc32_t acc, int shift_right) {
-    int32_t temp = (int32_t) mli_math_asr_rnd_fx<mli_acc32_t>(acc, shift_right);
-    temp = mli_math_asl_fx<mli_acc32_t>(temp, 16);
-    return (int16_t) mli_math_sat_fx<mli_acc32_t>(mli_math_asr_fx<mli_acc32_t>(temp, 16), 16);
-}
-
-template <> MLI_FORCE_INLINE mli_acc32_t mli_math_acc_cast_fx(mli_acc32_t acc, int shift_right) {
-    return (int32_t) mli_math_asr_rnd_fx<mli_acc32_t>(acc, shift_right);
-}
-
-// Cast value to output type (including accumulator type)
-//========================================================================
-template <>
-MLI_FORCE_INLINE int8_t mli_math_cast_fx(int16_t in_val, int shift_right) {
-    return (int8_t)mli_math_sat_fx<int16_t>(mli_math_asr_rnd_fx<int16_t>(in_val, shift_right), 8);
-}
-
-template <>
-MLI_FORCE_INLINE int8_t mli_math_cast_fx(int8_t in_val, int shift_right) {
-    return (int8_t)mli_math_asr_rnd_fx<int8_t>((int8_t)in_val, shift_right);
-}
-
-template <>
-MLI_FORCE_INLINE int16_t mli_math_cast_fx(int8_t in_val, int shift_right) {
-    return (int16_t)mli_math_asr_rnd_fx<int16_t>((int16_t)in_val, shift_right);
-}
-
-template <>
-MLI_FORCE_INLINE int16_t mli_math_cast_fx(int16_t in_val, int shift_right) {
-    return (int16_t)mli_math_asr_rnd_fx<int16_t>(in_val, shift_right);
-}
-
-template <>
-MLI_FORCE_INLINE int8_t mli_math_cast_fx(mli_acc32_t in_val, int shift_right) {
-    int32_t temp = (int32_t)mli_math_asr_rnd_fx<mli_acc32_t>((int32_t)in_val, shift_right);
-    return (int8_t)mli_math_sat_fx<int32_t>(temp, 24);
-}
-
-
-template <>
-MLI_FORCE_INLINE int8_t mli_math_cast_fx(mli_acc32_t in_val) {
-    int32_t temp = (int32_t)mli_math_asr_rnd_fx<mli_acc32_t>((int32_t)in_val, 24);
-    return (int8_t)mli_math_sat_fx<int32_t>(temp, 24);
-}
-
-template <>
-MLI_FORCE_INLINE int16_t mli_math_cast_fx(mli_acc32_t in_val, int shift_right) {
-    int32_t temp = (int32_t)mli_math_asr_rnd_fx<mli_acc32_t>(in_val, shift_right);
-    return (int16_t)mli_math_sat_fx<int32_t>(temp, 16);
-}
-
-template <>
-MLI_FORCE_INLINE int16_t mli_math_cast_fx(mli_acc32_t in_val) {
-    return (int16_t)mli_math_sat_fx<int32_t>(in_val, 16);
-}
-
-template <>
-MLI_FORCE_INLINE int32_t mli_math_cast_fx(mli_acc32_t in_val, int shift_right) {
-    return (int32_t)mli_math_asr_rnd_fx<mli_acc32_t>(in_val, shift_right);
-}
-
-template <>
-MLI_FORCE_INLINE mli_acc40_t mli_math_cast_fx(int16_t in_val, int shift_right) {
-    return (int32_t)mli_math_asr_rnd_fx<mli_acc40_t>((mli_acc40_t)in_val, shift_right);
-}
-
-template <>
-MLI_FORCE_INLINE int8_t mli_math_cast_fx(int64_t in_val, int shift_right) {
-    int64_t temp = (int64_t)mli_math_asr_rnd_fx<int64_t>((int64_t)in_val, shift_right);
-    return (int8_t)mli_math_sat_fx<int64_t>(temp, 56);
-}
-
-template <>
-MLI_FORCE_INLINE int16_t mli_math_cast_fx(int64_t in_val, int shift_right) {
-    int64_t temp = (int64_t)mli_math_asr_rnd_fx<int64_t>(in_val, shift_right);
-    return (int16_t)mli_math_sat_fx<int64_t>(temp, 48);
-}
-
-template <>
-MLI_FORCE_INLINE int16_t mli_math_cast_fx(int64_t in_val) {
-    return (int16_t)mli_math_sat_fx<int64_t>(in_val, 48);
-}
-
-template <>
-MLI_FORCE_INLINE int32_t mli_math_cast_fx(int64_t in_val, int shift_right) {
-    in_val = mli_math_asr_rnd_fx<int64_t>(in_val, shift_right);
-    return (int32_t)mli_math_sat_fx<int64_t>(in_val, 32);
-}
-
-template <>
-MLI_FORCE_INLINE float mli_math_cast_fx(int32_t in_val, int shift_right) {
-    return (float)in_val / (float)(1 << shift_right);
-}
-
-
-// Multipliers used to apply scale factors in asymetric data types
-//========================================================================
-template <typename acc_T, bool asym_data>
-MLI_FORCE_INLINE mli_acc32_t mli_math_scale_mul(mli_acc32_t accu, int32_t mul) {
-    if (asym_data) {
-        return accu = mli_math_mul_fx_high<int32_t, int32_t>(accu, mul);
-    }else{
-        return accu;
-    }
-}
-
-template <typename b_T, typename acc_T, bool asym_data>
-MLI_FORCE_INLINE acc_T mli_math_init_accu(b_T bias, int32_t bias_mul, int bias_shift) {
-    acc_T accu = mli_math_mul_fx<b_T, acc_T>(bias, asym_data ? 2 : 1); // extra factor of 2 needed because scale mul cannot multiply by 1.
-    accu = mli_math_acc_ashift_fx(accu, -bias_shift);
-    accu = mli_math_scale_mul<acc_T, asym_data>(accu, bias_mul);
-    return accu;
-}
-
-template<typename io_T, typename lr_T>
-MLI_FORCE_INLINE io_T mli_math_bound_range_fx(io_T in, lr_T L, lr_T R) {
-    io_T out;
-    out = mli_math_max_fx(in, L);
-    out = mli_math_min_fx(out, R);
-    return out;
-}
-
-
-// Multiply-and-accumulate operands
-//========================================================================
-template <>
-MLI_FORCE_INLINE mli_acc32_t mli_math_mac_fx(mli_acc32_t acc, int8_t L, int8_t R) {
-    return acc + (mli_acc32_t) (L * R);
-}
-
-template <>
-MLI_FORCE_INLINE mli_acc32_t mli_math_mac_fx(mli_acc32_t acc, int16_t L, int16_t R) {
-    return acc + (mli_acc32_t) (L * R);
-}
-
-template <>
-MLI_FORCE_INLINE mli_acc32_t mli_math_mac_fx(mli_acc32_t acc, int16_t L, int8_t R) {
-    return acc + (mli_acc32_t)(L * (int16_t)R);
-}
-
-template <>
-MLI_FORCE_INLINE mli_acc32_t mli_math_mac_fx(mli_acc32_t acc, int8_t L, int16_t R) {
-    return acc + (mli_acc32_t)((int16_t)L * R);
-}
-
-template <>
-MLI_FORCE_INLINE mli_acc40_t mli_math_mac_fx(mli_acc40_t acc, int16_t L, int16_t R) {
-    return acc + (mli_acc40_t) ((int32_t)L * (int32_t)R);
-}
-
-// Number of lanes in a vector
-//========================================================================
-template <typename T>
-MLI_FORCE_INLINE int get_number_lanes() {
-    int lanes = 0;
-    if (  std::is_same<T, int8_t>::value
-       || std::is_same<T, int16_t>::value
-       || std::is_same<T, int32_t>::value
-       || std::is_same<T, mli_acc40_t>::value
-       || std::is_same<T, int64_t>::value
-       || std::is_same<T, uint8_t>::value
-       || std::is_same<T, uint16_t>::value
-       || std::is_same<T, uint32_t>::value
-       || std::is_same<T, uint64_t>::value) {
-        lanes = 1;
-    }
-    MLI_ASSERT(lanes > 0);
-    return lanes;
-}
-
-template <typename T>
-MLI_FORCE_INLINE int get_number_lanes(T dummy) {
-    return get_number_lanes<T>();
-}
-
-#endif // _REF_MLI_MATH_H_
+/*
+* Copyright 2020-2022, Synopsys, Inc.
+* All rights reserved.
+*
+* This source code is licensed under the BSD-3-Clause license found in
+* the LICENSE file in the root directory of this source tree.
+*
+*/
+
+#ifndef _REF_MLI_MATH_H_
+#define _REF_MLI_MATH_H_
+
+#include <limits>
+#include <type_traits>
+#include "mli_debug.h"
+
+typedef int32_t mli_acc32_t;
+typedef int64_t mli_acc40_t;
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_asl_fx(T x, int nbits);
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_limit_fx(T sign) {
+    return sign < (T)0 ? std::numeric_limits<T>::lowest() : std::numeric_limits<T>::max();
+}
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_asr_pos_nbits_fx(T x, int nbits)
+{
+    int nbits_max = sizeof(T) * 8 - 1;
+    // This function is internal to this file
+    // and is required to avoid compiler issues.
+    if (nbits > nbits_max)
+        return x < (T)0 ? -1 : 0;
+    return x >> nbits;
+}
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_asr_fx(T x, int nbits)
+{
+    int nbits_max = sizeof(T) * 8 - 1;
+    int nbits_min = 0;
+    if (nbits > nbits_max)
+        return x < (T)0 ? -1 : 0;
+    if (nbits < nbits_min)
+        return mli_math_asl_fx<T>(x, (-nbits));
+    return x >> nbits;
+}
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_asl_fx(T x, int nbits)
+{
+    int inp_size = sizeof(T) * 8;
+    T hi = 0;
+
+    if (nbits < 0)
+        return mli_math_asr_pos_nbits_fx<T>(x, (-nbits));
+
+    if (nbits > (inp_size - 1))
+        return x != (T)0 ? mli_math_limit_fx<T>(x) : 0;
+
+    hi = x >> ((inp_size - 1) - nbits);
+    if (hi == (T)0 || hi == (T)-1)
+        return x << nbits;
+
+    return mli_math_limit_fx<T>(hi);
+}
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_asr_rnd_fx(T x, int nbits)
+{
+    using unsigned_T = typename std::make_unsigned<T>::type;
+    T r = 0;
+    unsigned_T one = 1u;
+    int nbits_max = sizeof(T) * 8 - 1;
+    int nbits_min = 0;
+
+    if (nbits < nbits_min)
+        return mli_math_asl_fx<T>(x, (-nbits));
+    if (nbits == nbits_min)
+        return x;
+
+    if (nbits > nbits_max)
+        return 0;
+
+    // Rounding up:
+    // if the most significant deleted bit is 1, add 1 to the remaining bits.
+#ifdef ROUND_MODE_UP
+    T round = (T)((one << nbits) >> 1);
+    r = mli_math_add_fx<T>(x, round);
+    r = mli_math_asr_fx<T>(r, nbits);
+#endif
+
+    // Convergent: rounding with half-way value rounded to even value.
+    // If the most significant deleted bit is 1, and 
+    // either the least significant of the remaining bits
+    // or at least one other deleted bit is 1, add 1 to the remaining bits.
+#ifdef ROUND_MODE_CONVERGENT
+    r = mli_math_asr_fx<T>(x, nbits);
+    T last_deleted_mask = (T)((one << nbits) >> 1);
+    if (((x & last_deleted_mask) != (T)0) && 
+            (((r & (T)1) != (T)0) ||  ((x & (last_deleted_mask-(T)1))!= (T)0))) {
+        return mli_math_add_fx<T>(r, 1);
+    }
+#endif
+
+    return r;
+}
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_asl_rnd_fx(T x, int nbits)
+{
+    return mli_math_asr_rnd_fx<T>(x, -nbits);
+}
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_neg_fx(T x) {
+    return x == std::numeric_limits<T>::lowest() ? std::numeric_limits<T>::max() : -x;
+}
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_sat_fx(T x, unsigned nbits)
+{
+    return mli_math_asr_fx<T>(mli_math_asl_fx<T>(x, nbits), nbits);
+}
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_abs_fx(T x)
+{    
+    return x >= (T)0 ? x : mli_math_neg_fx(x);
+}
+
+template <typename T, typename o_T>
+MLI_FORCE_INLINE o_T mli_math_norm_fx(T x)
+{
+    o_T inp_size = sizeof(T) * 8;
+    T hi = x < (T)0 ? (T)-1 : (T)0;
+    o_T r = 0;
+
+    if (x == (T)0)
+        return inp_size - 1;
+
+    while ((x >> r) != hi)
+        r++;
+    return (inp_size - 1) - r;
+}
+
+template<typename in_T, typename out_T>
+MLI_FORCE_INLINE out_T mli_math_norm_cast_fx(in_T val , int32_t *norm_shift) {
+    int32_t cast_shift = (sizeof(in_T) - sizeof(out_T)) * 8;
+    int32_t norm = mli_math_norm_fx<in_T, int32_t>(val);
+    *norm_shift = cast_shift - norm;
+    return mli_math_cast_fx<in_T, out_T>(val, *norm_shift);
+}
+
+// Addition of two fx operands with saturation
+//========================================================================
+template <typename T>
+MLI_FORCE_INLINE T mli_math_add_fx(T L, T R) {
+    if ((R > 0) && (L > std::numeric_limits<T>::max() - R)) // `L + R` would overflow
+        return std::numeric_limits<T>::max();
+    if ((R < 0) && (L < std::numeric_limits<T>::lowest() - R)) // `L + R` would underflow
+        return std::numeric_limits<T>::lowest();
+    return L + R;
+}
+
+// Subtraction of two fx operands with saturation
+//========================================================================
+template <typename T>
+MLI_FORCE_INLINE T mli_math_sub_fx(T L, T R) {
+    if ((R < 0) && (L > std::numeric_limits<T>::max() + R)) // `L - R` would overflow
+        return std::numeric_limits<T>::max();
+    if ((R > 0) && (L < std::numeric_limits<T>::lowest() + R)) // `L - R` would underflow
+        return std::numeric_limits<T>::lowest();
+    return L - R;
+}
+
+// Maximum of two fx operands
+//========================================================================
+template <typename io_T>
+MLI_FORCE_INLINE io_T mli_math_max_fx(io_T L, io_T R) {
+    return (L > R) ? L : R;
+}
+
+template <typename l_T, typename r_T>
+MLI_FORCE_INLINE l_T mli_math_max_fx(l_T L, r_T R) {
+    return (L > R) ? L : R;
+}
+
+// Minimum of two fx operands
+//========================================================================
+template <typename io_T>
+MLI_FORCE_INLINE io_T mli_math_min_fx(io_T L, io_T R) {
+     return (L < R) ? L : R;
+}
+
+// Multiply two operands
+//========================================================================
+template <typename in_T, typename acc_T>
+MLI_FORCE_INLINE acc_T mli_math_mul_fx(in_T L, in_T R) {
+    return L * R;
+}
+
+template <>
+MLI_FORCE_INLINE mli_acc32_t mli_math_mul_fx_high(int32_t L, int32_t R) {
+    // this function takes the MSB part of the result. (L * R) >> 31
+    // in optimized code check if mpyfr instruction is used here.
+    return (mli_acc32_t)(((int64_t)L * (int64_t)R + (int64_t)(1<<30)) >> 31);
+}
+
+template <>
+MLI_FORCE_INLINE int64_t mli_math_mul_fx(int32_t L, int32_t R) {
+    // Result of multiplication is fractional number (shifted left by 1)
+    // To return correct result we shift it right afterward
+    int64_t acc = (int64_t)L * (int64_t)R;
+    return (int64_t) acc;
+}
+
+// Cast scalar to/from void pointer
+//========================================================================
+template < typename out_T > 
+MLI_FORCE_INLINE out_T mli_math_cast_ptr_to_scalar_fx(void *src) {
+    // REMARK: Need to check from C/Cpp standard point of view
+    return static_cast < out_T > ((intptr_t) (src));
+}
+
+template < typename in_T > 
+MLI_FORCE_INLINE void *mli_math_cast_scalar_to_ptr_fx(in_T src) {
+    // REMARK: Need to check from C/Cpp standard point of view
+    intptr_t out_upcast = src;
+    return static_cast < void *>((intptr_t *) out_upcast);
+}
+
+// Comparators
+//========================================================================
+template < typename io_T > 
+MLI_FORCE_INLINE bool mli_prv_less_than_1(io_T value, uint8_t frac_bits) {
+    if (frac_bits >= sizeof(io_T) * 8 - 1)
+        return true;
+
+    io_T unit = (io_T) 1 << frac_bits;
+    return (value < unit);
+}
+
+// Accumulator shift
+//========================================================================
+
+template <>
+MLI_FORCE_INLINE mli_acc32_t mli_math_acc_ashift_fx(mli_acc32_t acc, int shift_right) {
+    return mli_math_asr_rnd_fx<mli_acc32_t>(acc, shift_right);
+}
+
+template <>
+MLI_FORCE_INLINE mli_acc40_t mli_math_acc_ashift_fx(mli_acc40_t acc, int shift_right) {
+    return mli_math_asr_rnd_fx<mli_acc40_t>(acc, shift_right);
+}
+
+// Arithmetic shift (right is default, left on the negative val)
+//========================================================================
+
+template <>
+MLI_FORCE_INLINE int8_t mli_math_ashift_right_fx(int8_t in_val, int shift_right) {
+    int8_t shifted_in_val = mli_math_asr_rnd_fx<int8_t>((int8_t)in_val, shift_right);
+    return shifted_in_val;
+}
+
+template <>
+MLI_FORCE_INLINE int16_t mli_math_ashift_right_fx(int16_t in_val, int shift_right) {
+    return mli_math_asr_rnd_fx<int16_t>(in_val, shift_right);
+}
+
+template <>
+MLI_FORCE_INLINE int32_t mli_math_ashift_right_fx(int32_t in_val, int shift_right) {
+    return mli_math_asr_rnd_fx<int32_t>(in_val, shift_right);
+}
+
+template <>
+MLI_FORCE_INLINE int64_t mli_math_ashift_right_fx(int64_t in_val, int shift_right) {
+    return mli_math_asr_rnd_fx<int64_t>(in_val, shift_right);
+}
+
+// Multiply and cast float to accum
+//========================================================================
+
+MLI_FORCE_INLINE int32_t mli_math_float_scale(float value, float scale) {
+    const float round_val = value > 0 ? 0.5f : -0.5f;
+    return (int32_t)(value * scale + round_val);
+}
+
+// Cast accum to output type
+//========================================================================
+template <>
+MLI_FORCE_INLINE int8_t mli_math_acc_cast_fx(mli_acc32_t acc, int shift_right) {
+    int32_t temp = (int32_t) mli_math_asr_rnd_fx<mli_acc32_t>(acc, shift_right);
+    temp = mli_math_asl_fx<int32_t>(temp, 24);
+    return (int8_t) (temp >> 24);
+}
+
+template <> 
+MLI_FORCE_INLINE int16_t mli_math_acc_cast_fx(mli_acc32_t acc, int shift_right) {
+    int32_t temp = (int32_t) mli_math_asr_rnd_fx<mli_acc32_t>(acc, shift_right);
+    temp = mli_math_asl_fx<mli_acc32_t>(temp, 16);
+    return (int16_t) mli_math_sat_fx<mli_acc32_t>(mli_math_asr_fx<mli_acc32_t>(temp, 16), 16);
+}
+
+template <> MLI_FORCE_INLINE mli_acc32_t mli_math_acc_cast_fx(mli_acc32_t acc, int shift_right) {
+    return (int32_t) mli_math_asr_rnd_fx<mli_acc32_t>(acc, shift_right);
+}
+
+// Cast value to output type (including accumulator type)
+//========================================================================
+template <>
+MLI_FORCE_INLINE int8_t mli_math_cast_fx(int16_t in_val, int shift_right) {
+    return (int8_t)mli_math_sat_fx<int16_t>(mli_math_asr_rnd_fx<int16_t>(in_val, shift_right), 8);
+}
+
+template <>
+MLI_FORCE_INLINE int8_t mli_math_cast_fx(int8_t in_val, int shift_right) {
+    return (int8_t)mli_math_asr_rnd_fx<int8_t>((int8_t)in_val, shift_right);
+}
+
+template <>
+MLI_FORCE_INLINE int16_t mli_math_cast_fx(int8_t in_val, int shift_right) {
+    return (int16_t)mli_math_asr_rnd_fx<int16_t>((int16_t)in_val, shift_right);
+}
+
+template <>
+MLI_FORCE_INLINE int16_t mli_math_cast_fx(int16_t in_val, int shift_right) {
+    return (int16_t)mli_math_asr_rnd_fx<int16_t>(in_val, shift_right);
+}
+
+template <>
+MLI_FORCE_INLINE int8_t mli_math_cast_fx(mli_acc32_t in_val, int shift_right) {
+    int32_t temp = (int32_t)mli_math_asr_rnd_fx<mli_acc32_t>((int32_t)in_val, shift_right);
+    return (int8_t)mli_math_sat_fx<int32_t>(temp, 24);
+}
+
+
+template <>
+MLI_FORCE_INLINE int8_t mli_math_cast_fx(mli_acc32_t in_val) {
+    int32_t temp = (int32_t)mli_math_asr_rnd_fx<mli_acc32_t>((int32_t)in_val, 24);
+    return (int8_t)mli_math_sat_fx<int32_t>(temp, 24);
+}
+
+template <>
+MLI_FORCE_INLINE int16_t mli_math_cast_fx(mli_acc32_t in_val, int shift_right) {
+    int32_t temp = (int32_t)mli_math_asr_rnd_fx<mli_acc32_t>(in_val, shift_right);
+    return (int16_t)mli_math_sat_fx<int32_t>(temp, 16);
+}
+
+template <>
+MLI_FORCE_INLINE int16_t mli_math_cast_fx(mli_acc32_t in_val) {
+    return (int16_t)mli_math_sat_fx<int32_t>(in_val, 16);
+}
+
+template <>
+MLI_FORCE_INLINE int32_t mli_math_cast_fx(mli_acc32_t in_val, int shift_right) {
+    return (int32_t)mli_math_asr_rnd_fx<mli_acc32_t>(in_val, shift_right);
+}
+
+template <>
+MLI_FORCE_INLINE mli_acc40_t mli_math_cast_fx(int16_t in_val, int shift_right) {
+    return (mli_acc40_t)mli_math_asr_rnd_fx<mli_acc40_t>((mli_acc40_t)in_val, shift_right);
+}
+
+template <>
+MLI_FORCE_INLINE int8_t mli_math_cast_fx(int64_t in_val, int shift_right) {
+    int64_t temp = (int64_t)mli_math_asr_rnd_fx<int64_t>((int64_t)in_val, shift_right);
+    return (int8_t)mli_math_sat_fx<int64_t>(temp, 56);
+}
+
+template <>
+MLI_FORCE_INLINE int16_t mli_math_cast_fx(int64_t in_val, int shift_right) {
+    int64_t temp = (int64_t)mli_math_asr_rnd_fx<int64_t>(in_val, shift_right);
+    return (int16_t)mli_math_sat_fx<int64_t>(temp, 48);
+}
+
+template <>
+MLI_FORCE_INLINE int16_t mli_math_cast_fx(int64_t in_val) {
+    return (int16_t)mli_math_sat_fx<int64_t>(in_val, 48);
+}
+
+template <>
+MLI_FORCE_INLINE int32_t mli_math_cast_fx(int64_t in_val, int shift_right) {
+    in_val = mli_math_asr_rnd_fx<int64_t>(in_val, shift_right);
+    return (int32_t)mli_math_sat_fx<int64_t>(in_val, 32);
+}
+
+template <>
+MLI_FORCE_INLINE float mli_math_cast_fx(int32_t in_val, int shift_right) {
+    return (float)in_val / (float)(1 << shift_right);
+}
+
+
+// Multipliers used to apply scale factors in asymetric data types
+//========================================================================
+template <typename acc_T, bool asym_data>
+MLI_FORCE_INLINE mli_acc32_t mli_math_scale_mul(mli_acc32_t accu, int32_t mul) {
+    if (asym_data) {
+        return accu = mli_math_mul_fx_high<int32_t, int32_t>(accu, mul);
+    }else{
+        return accu;
+    }
+}
+
+template <typename b_T, typename acc_T, bool asym_data>
+MLI_FORCE_INLINE acc_T mli_math_init_accu(b_T bias, int32_t bias_mul, int bias_shift) {
+    acc_T accu = mli_math_mul_fx<b_T, acc_T>(bias, asym_data ? 2 : 1); // extra factor of 2 needed because scale mul cannot multiply by 1.
+    accu = mli_math_acc_ashift_fx(accu, -bias_shift);
+    accu = mli_math_scale_mul<acc_T, asym_data>(accu, bias_mul);
+    return accu;
+}
+
+template<typename io_T, typename lr_T>
+MLI_FORCE_INLINE io_T mli_math_bound_range_fx(io_T in, lr_T L, lr_T R) {
+    io_T out;
+    out = mli_math_max_fx(in, L);
+    out = mli_math_min_fx(out, R);
+    return out;
+}
+
+
+// Multiply-and-accumulate operands
+//========================================================================
+template <>
+MLI_FORCE_INLINE mli_acc32_t mli_math_mac_fx(mli_acc32_t acc, int8_t L, int8_t R) {
+    return acc + (mli_acc32_t) (L * R);
+}
+
+template <>
+MLI_FORCE_INLINE mli_acc32_t mli_math_mac_fx(mli_acc32_t acc, int16_t L, int16_t R) {
+    return acc + (mli_acc32_t) (L * R);
+}
+
+template <>
+MLI_FORCE_INLINE mli_acc32_t mli_math_mac_fx(mli_acc32_t acc, int16_t L, int8_t R) {
+    return acc + (mli_acc32_t)(L * (int16_t)R);
+}
+
+template <>
+MLI_FORCE_INLINE mli_acc32_t mli_math_mac_fx(mli_acc32_t acc, int8_t L, int16_t R) {
+    return acc + (mli_acc32_t)((int16_t)L * R);
+}
+
+template <>
+MLI_FORCE_INLINE mli_acc40_t mli_math_mac_fx(mli_acc40_t acc, int16_t L, int16_t R) {
+    return acc + (mli_acc40_t) ((int32_t)L * (int32_t)R);
+}
+
+// Number of lanes in a vector
+//========================================================================
+template <typename T>
+MLI_FORCE_INLINE int get_number_lanes() {
+    int lanes = 0;
+    if (  std::is_same<T, int8_t>::value
+       || std::is_same<T, int16_t>::value
+       || std::is_same<T, int32_t>::value
+       || std::is_same<T, mli_acc40_t>::value
+       || std::is_same<T, int64_t>::value
+       || std::is_same<T, uint8_t>::value
+       || std::is_same<T, uint16_t>::value
+       || std::is_same<T, uint32_t>::value
+       || std::is_same<T, uint64_t>::value) {
+        lanes = 1;
+    }
+    MLI_ASSERT(lanes > 0);
+    return lanes;
+}
+
+template <typename T>
+MLI_FORCE_INLINE int get_number_lanes(T dummy) {
+    return get_number_lanes<T>();
+}
+
+#endif // _REF_MLI_MATH_H_
-- 
2.43.0


From 6d829c39433cd88a41fb2fdc3517e692963b29a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:21 +0000
Subject: [PATCH 34/36] fix: ReLU6 and ReLU1 limits of formats finer than 2^-28
 stay at the container range

---
 lib/src/private/mli_prv_tensor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/private/mli_prv_tensor.h b/lib/src/private/mli_prv_tensor.h
index eac988c..c267146 100644
--- a/lib/src/private/mli_prv_tensor.h
+++ b/lib/src/private/mli_prv_tensor.h
@@ -976,7 +976,7 @@ mli_prv_get_relu_limits (const mli_relu_cfg * cfg, const mli_tensor * out) {
         break;
     case MLI_RELU_6:
         if (shift >= 0) {
-            six = (shift < 28) ? ((int32_t)6 << shift) / scale : max_val;
+            six = (shift < 28) ? ((int32_t)6 << shift) / scale : std::numeric_limits<int32_t>::max() / 2;
         }
         else {
             six = (shift > -3) ?((int32_t)6 >> (-shift)) / scale : 0;
@@ -988,7 +988,7 @@ mli_prv_get_relu_limits (const mli_relu_cfg * cfg, const mli_tensor * out) {
         break;
     case MLI_RELU_1:
         if (shift >= 0) {
-            one = (shift < 30) ? ((int32_t)1 << shift) / scale : max_val;
+            one = (shift < 30) ? ((int32_t)1 << shift) / scale : std::numeric_limits<int32_t>::max() / 2;
         }
         else {
             one = 0;
-- 
2.43.0


From 6c849d1e8e914fe31370fe5e793e72fa5c5d1bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:33 +0000
Subject: [PATCH 35/36] fix: copying a per-axis quantized tensor also sets the
 type of its element parameters

---
 lib/src/move/mli_mov_api.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/move/mli_mov_api.cc b/lib/src/move/mli_mov_api.cc
index 9fb98a4..b80733d 100644
--- a/lib/src/move/mli_mov_api.cc
+++ b/lib/src/move/mli_mov_api.cc
@@ -134,6 +134,7 @@ mli_status mli_mov_prepare(mli_mov_handle_t* h, const mli_tensor* src, const mli
     }
 
     if ((src->el_type == MLI_EL_SA_8 || src->el_type == MLI_EL_SA_32) && (src->el_params.sa.dim != -1)) {
+        dst->el_params.sa.type = src->el_params.sa.type;
         for (int dim = 0; dim < rank; dim++) {
             if (pdim[dim] == src->el_params.sa.dim) {
                 dst->el_params.sa.dim = dim;
-- 
2.43.0


From db95e7498645fbdbb55ba51ce0cfc8fdf9c7bc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:37 +0000
Subject: [PATCH 36/36] fix: permute of a quantized tensor also sets the type
 of the output element parameters

---
 lib/src/kernels/diverse/impl/mli_krn_permute_ref.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/kernels/diverse/impl/mli_krn_permute_ref.h b/lib/src/kernels/diverse/impl/mli_krn_permute_ref.h
index 6c65716..cf3617b 100644
--- a/lib/src/kernels/diverse/impl/mli_krn_permute_ref.h
+++ b/lib/src/kernels/diverse/impl/mli_krn_permute_ref.h
@@ -82,6 +82,7 @@ static MLI_FORCE_INLINE mli_status mli_krn_permute_run(const mli_tensor *in, con
     mli::krn::mli_krn_permute_calc<io_T>(in, out_shape, out_increments, perm_dim, input, output);
 
     if (asym) {
+        out->el_params.sa.type = in->el_params.sa.type;
         if (in->el_params.sa.dim < 0) {
             out->el_params.sa.dim = -1;
             out->el_params.sa.zero_point.mem.i16 = in->el_params.sa.zero_point.mem.i16;
-- 
2.43.0

