From a98c8166d13a84b5f55fe7b17c8a08ba89617779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 01/54] fix: raise the exception of a failed check at every
 global log level

LogStream dropped both the message and the manipulator when the stream's
level was below the global one, so with GlobalLogLevel(LOG_FATAL) every
failed TS_AUTO_CHECK / '<< eject' was ignored and execution continued with
the invalid data.
---
 include/utils/log.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/utils/log.h b/include/utils/log.h
index f2e2f19..565e02b 100644
--- a/include/utils/log.h
+++ b/include/utils/log.h
@@ -102,9 +102,8 @@ namespace ts {
         template<typename T>
         self &operator()(T &&message) {
             if (m_level == LOG_NONE) return *this;
-            if (m_level >= GlobalLogLevel()) {
-                m_buffer << std::forward<T>(message);
-            }
+            // the message is also carried by the exception eject throws, whatever the global level
+            m_buffer << std::forward<T>(message);
             return *this;
         }
 
@@ -117,10 +116,8 @@ namespace ts {
 
         self &operator<<(Method method) {
             if (m_level == LOG_NONE) return *this;
-            if (m_level >= GlobalLogLevel()) {
-                return method(*this);
-            }
-            return *this;
+            // the global level only filters output, it must not disable eject
+            return method(*this);
         }
 
         void flush() {
-- 
2.43.0


From 9b74d16c7c61f407bad47ed1e31b0166ef256feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 02/54] fix: abort instead of only logging failed validations

Several TS_CHECK / TS_LOG_ERROR / LOG(FATAL) statements lacked '<< eject', so the
failure was printed and the invalid value (null operator, missing operand, zero
step, unknown format, missing allocator) was used anyway.
---
 src/backend/base/base_lstm.cpp              | 18 +++++++++---------
 src/backend/base/base_matmul.cpp            |  4 ++--
 src/backend/base/base_slice_v3.cpp          |  2 +-
 src/backend/base/base_strided_slice.cpp     |  2 +-
 src/backend/zoo/crop_nd.cpp                 |  2 +-
 src/backend/zoo/divided.cpp                 |  2 +-
 src/backend/zoo/limit.cpp                   |  2 +-
 src/backend/zoo/nhwc_center_crop2d.cpp      |  2 +-
 src/backend/zoo/nhwc_letterbox.cpp          |  2 +-
 src/backend/zoo/nhwc_scale_resize2d.cpp     |  2 +-
 src/kernels/cpu/caffe/bbox_util.cpp         |  4 ++--
 src/kernels/cpu/conv2d_v2.cpp               |  2 +-
 src/kernels/cpu/conv2d_winograd_v2.cpp      |  2 +-
 src/kernels/cpu/crop_to.cpp                 |  2 +-
 src/kernels/cpu/depthwise_conv2d_v2.cpp     |  2 +-
 src/kernels/cpu/pooling2d_v2.cpp            |  2 +-
 src/kernels/cpu/resize_nearest_neighbor.cpp |  2 +-
 src/kernels/cpu/sample2d.cpp                |  2 +-
 src/kernels/cpu/sample2d_v2.cpp             |  2 +-
 src/memory/flow.cpp                         |  2 +-
 src/module/module.cpp                       |  2 +-
 21 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/src/backend/base/base_lstm.cpp b/src/backend/base/base_lstm.cpp
index f17c063..d141e65 100644
--- a/src/backend/base/base_lstm.cpp
+++ b/src/backend/base/base_lstm.cpp
@@ -23,7 +23,7 @@ namespace ts {
             auto &context = ctx::ref<DeviceContext>();
 
             m_op_gemm_notran = OperatorCreator::Create(context.computing_device.type(), name::layer::gemm(), false);
-            TS_CHECK_NQ(m_op_gemm_notran, nullptr) << "Can not find operator: " << name::layer::gemm();
+            TS_CHECK_NQ(m_op_gemm_notran, nullptr) << "Can not find operator: " << name::layer::gemm() << eject;
 
             // bubble param
             m_op_gemm_notran->set(Bubble::RetentionParam::op, tensor::from(name::layer::gemm()));
@@ -36,7 +36,7 @@ namespace ts {
             m_op_gemm_notran->init();
 
             m_op_gemm_transb = OperatorCreator::Create(context.computing_device.type(), name::layer::gemm(), false);
-            TS_CHECK_NQ(m_op_gemm_transb, nullptr) << "Can not find operator: " << name::layer::gemm();
+            TS_CHECK_NQ(m_op_gemm_transb, nullptr) << "Can not find operator: " << name::layer::gemm() << eject;
 
             // bubble param
             m_op_gemm_transb->set(Bubble::RetentionParam::op, tensor::from(name::layer::gemm()));
@@ -53,7 +53,7 @@ namespace ts {
 
 
             m_op_mul = OperatorCreator::Create(context.computing_device.type(), name::layer::mul(), false);
-            TS_CHECK_NQ(m_op_mul, nullptr) << "Can not find operator: " << name::layer::mul();
+            TS_CHECK_NQ(m_op_mul, nullptr) << "Can not find operator: " << name::layer::mul() << eject;
 
             m_op_mul->set(Bubble::RetentionParam::op, tensor::from(name::layer::mul()));
             m_op_mul->set(Bubble::RetentionParam::name, tensor::from("_core" + name()));
@@ -66,7 +66,7 @@ namespace ts {
 
 
             m_op_add = OperatorCreator::Create(context.computing_device.type(), name::layer::add(), false);
-            TS_CHECK_NQ(m_op_add, nullptr) << "Can not find operator: " << "add";
+            TS_CHECK_NQ(m_op_add, nullptr) << "Can not find operator: " << "add" << eject;
 
             m_op_add->set(Bubble::RetentionParam::op, tensor::from("add"));
             m_op_add->set(Bubble::RetentionParam::name, tensor::from("_core" + name()));
@@ -79,7 +79,7 @@ namespace ts {
 
 
             m_op_tanh = OperatorCreator::Create(context.computing_device.type(), "tanh", false);
-            TS_CHECK_NQ(m_op_tanh, nullptr) << "Can not find operator: " << "tanh";
+            TS_CHECK_NQ(m_op_tanh, nullptr) << "Can not find operator: " << "tanh" << eject;
 
             m_op_tanh->set(Bubble::RetentionParam::op, tensor::from("tanh"));
             m_op_tanh->set(Bubble::RetentionParam::name, tensor::from("_core" + name()));
@@ -92,7 +92,7 @@ namespace ts {
 
 
             m_op_sigmoid = OperatorCreator::Create(context.computing_device.type(), name::layer::sigmoid(), false);
-            TS_CHECK_NQ(m_op_sigmoid, nullptr) << "Can not find operator: " << name::layer::sigmoid();
+            TS_CHECK_NQ(m_op_sigmoid, nullptr) << "Can not find operator: " << name::layer::sigmoid() << eject;
 
             m_op_sigmoid->set(Bubble::RetentionParam::op, tensor::from(name::layer::sigmoid()));
             m_op_sigmoid->set(Bubble::RetentionParam::name, tensor::from("_core" + name()));
@@ -105,7 +105,7 @@ namespace ts {
 
 
             m_op_concat_dim0 = OperatorCreator::Create(context.computing_device.type(), name::layer::concat(), false);
-            TS_CHECK_NQ(m_op_concat_dim0, nullptr) << "Can not find operator: " << name::layer::concat();
+            TS_CHECK_NQ(m_op_concat_dim0, nullptr) << "Can not find operator: " << name::layer::concat() << eject;
 
             // bubble param
             m_op_concat_dim0->set(Bubble::RetentionParam::op, tensor::from(name::layer::concat()));
@@ -122,7 +122,7 @@ namespace ts {
 
 
             m_op_concat_dim1 = OperatorCreator::Create(context.computing_device.type(), name::layer::concat(), false);
-            TS_CHECK_NQ(m_op_concat_dim1, nullptr) << "Can not find operator: " << name::layer::concat();
+            TS_CHECK_NQ(m_op_concat_dim1, nullptr) << "Can not find operator: " << name::layer::concat() << eject;
 
             // bubble param
             m_op_concat_dim1->set(Bubble::RetentionParam::op, tensor::from(name::layer::concat()));
@@ -158,7 +158,7 @@ namespace ts {
         }
 
         int LSTM::run(Stack &stack) {
-            TS_CHECK_GE(stack.size(), 3);
+            TS_CHECK_GE(stack.size(), 3) << eject;
 
             std::vector<Tensor::Prototype> output;
             infer(stack, output);
diff --git a/src/backend/base/base_matmul.cpp b/src/backend/base/base_matmul.cpp
index 32bfac7..4c03573 100644
--- a/src/backend/base/base_matmul.cpp
+++ b/src/backend/base/base_matmul.cpp
@@ -13,7 +13,7 @@ namespace ts {
             auto &context = ctx::ref<DeviceContext>();
 
             m_op_inner_prod = OperatorCreator::Create(context.computing_device.type(), "inner_prod", false);
-            TS_CHECK_NQ(m_op_inner_prod, nullptr) << "Can not find operator: " << "inner_prod";
+            TS_CHECK_NQ(m_op_inner_prod, nullptr) << "Can not find operator: " << "inner_prod" << eject;
             // bubble param
             m_op_inner_prod->set(Bubble::RetentionParam::op, tensor::from(name::layer::gemm()));
             m_op_inner_prod->set(Bubble::RetentionParam::name, tensor::from("_core" + name()));
@@ -64,7 +64,7 @@ namespace ts {
         }
 
         int MatMul::run(Stack &stack) {
-            TS_CHECK_GE(stack.size(), 2);
+            TS_CHECK_GE(stack.size(), 2) << eject;
 
             std::vector<Tensor::Prototype> outputs;
 
diff --git a/src/backend/base/base_slice_v3.cpp b/src/backend/base/base_slice_v3.cpp
index 0550c06..c84ccb6 100644
--- a/src/backend/base/base_slice_v3.cpp
+++ b/src/backend/base/base_slice_v3.cpp
@@ -57,7 +57,7 @@ namespace ts {
             } else if (stride < 0) {
                 return begin > end ? (begin - end - 1) / -stride + 1 : 0;
             } else {
-                TS_LOG_ERROR << "slice step cant not be zero";
+                TS_LOG_ERROR << "slice step cant not be zero" << eject;
                 return 0;
             }
         }
diff --git a/src/backend/base/base_strided_slice.cpp b/src/backend/base/base_strided_slice.cpp
index e6b5537..2f5cf32 100644
--- a/src/backend/base/base_strided_slice.cpp
+++ b/src/backend/base/base_strided_slice.cpp
@@ -81,7 +81,7 @@ namespace ts {
             } else if (stride < 0) {
                 return begin > end ? (begin - end - 1) / -stride + 1 : 0;
             } else {
-                TS_LOG_ERROR << "slice step cant not be zero";
+                TS_LOG_ERROR << "slice step cant not be zero" << eject;
                 return 0;
             }
         }
diff --git a/src/backend/zoo/crop_nd.cpp b/src/backend/zoo/crop_nd.cpp
index fbafb5d..6de236b 100644
--- a/src/backend/zoo/crop_nd.cpp
+++ b/src/backend/zoo/crop_nd.cpp
@@ -33,7 +33,7 @@ namespace ts {
 
             m_pad_op = OperatorCreator::Create(context.computing_device.type(), name::layer::pad(), false);
 
-            TS_CHECK_NQ(m_pad_op, nullptr) << "Can not find operator: " << name::layer::pad();
+            TS_CHECK_NQ(m_pad_op, nullptr) << "Can not find operator: " << name::layer::pad() << eject;
 
             m_pad_op->set(name::padding_value, tensor::build(FLOAT32, {0.0f}));
 
diff --git a/src/backend/zoo/divided.cpp b/src/backend/zoo/divided.cpp
index 9c08527..68d6d93 100644
--- a/src/backend/zoo/divided.cpp
+++ b/src/backend/zoo/divided.cpp
@@ -39,7 +39,7 @@ namespace ts {
 
             m_pad_op = OperatorCreator::Create(context.computing_device.type(), name::layer::pad(), false);
 
-            TS_CHECK_NQ(m_pad_op, nullptr) << "Can not find operator: " << name::layer::pad();
+            TS_CHECK_NQ(m_pad_op, nullptr) << "Can not find operator: " << name::layer::pad() << eject;
 
             if (has(name::padding_value)) {
                 m_pad_op->set(name::padding_value, get(name::padding_value).clone());
diff --git a/src/backend/zoo/limit.cpp b/src/backend/zoo/limit.cpp
index 3e96a82..8271700 100644
--- a/src/backend/zoo/limit.cpp
+++ b/src/backend/zoo/limit.cpp
@@ -36,7 +36,7 @@ namespace ts {
 
             m_pad_op = OperatorCreator::Create(context.computing_device.type(), name::layer::pad(), false);
 
-            TS_CHECK_NQ(m_pad_op, nullptr) << "Can not find operator: " << name::layer::pad();
+            TS_CHECK_NQ(m_pad_op, nullptr) << "Can not find operator: " << name::layer::pad() << eject;
 
             m_pad_op->set(name::padding_value, tensor::build(FLOAT32, {0.0f}));
 
diff --git a/src/backend/zoo/nhwc_center_crop2d.cpp b/src/backend/zoo/nhwc_center_crop2d.cpp
index bbbaffc..4ad60f3 100644
--- a/src/backend/zoo/nhwc_center_crop2d.cpp
+++ b/src/backend/zoo/nhwc_center_crop2d.cpp
@@ -34,7 +34,7 @@ namespace ts {
 
             m_pad_op = OperatorCreator::Create(context.computing_device.type(), name::layer::pad(), false);
 
-            TS_CHECK_NQ(m_pad_op, nullptr) << "Can not find operator: " << name::layer::pad();
+            TS_CHECK_NQ(m_pad_op, nullptr) << "Can not find operator: " << name::layer::pad() << eject;
 
             m_pad_op->set(name::padding_value, tensor::build(FLOAT32, {0.0f}));
 
diff --git a/src/backend/zoo/nhwc_letterbox.cpp b/src/backend/zoo/nhwc_letterbox.cpp
index abd508e..1d81593 100644
--- a/src/backend/zoo/nhwc_letterbox.cpp
+++ b/src/backend/zoo/nhwc_letterbox.cpp
@@ -40,7 +40,7 @@ namespace ts {
 
             m_sample_op = OperatorCreator::Create(context.computing_device.type(), name::layer::affine_sample2d(), false);
 
-            TS_CHECK_NQ(m_sample_op, nullptr) << "Can not find operator: " << name::layer::affine_sample2d();
+            TS_CHECK_NQ(m_sample_op, nullptr) << "Can not find operator: " << name::layer::affine_sample2d() << eject;
 
             m_sample_op->set(name::type, tensor::clone(INT32, get(name::type)));
             m_sample_op->set(name::outer_value, tensor::clone(FLOAT32, get(name::outer_value)));
diff --git a/src/backend/zoo/nhwc_scale_resize2d.cpp b/src/backend/zoo/nhwc_scale_resize2d.cpp
index ea9e735..2c328be 100644
--- a/src/backend/zoo/nhwc_scale_resize2d.cpp
+++ b/src/backend/zoo/nhwc_scale_resize2d.cpp
@@ -36,7 +36,7 @@ namespace ts {
 
             m_resize2d_op = OperatorCreator::Create(context.computing_device.type(), name::layer::resize2d(), false);
 
-            TS_CHECK_NQ(m_resize2d_op, nullptr) << "Can not find operator: " << name::layer::resize2d();
+            TS_CHECK_NQ(m_resize2d_op, nullptr) << "Can not find operator: " << name::layer::resize2d() << eject;
 
             m_resize2d_op->set(name::type, tensor::clone(INT32, get(name::type)));
 
diff --git a/src/kernels/cpu/caffe/bbox_util.cpp b/src/kernels/cpu/caffe/bbox_util.cpp
index 888dc10..05e72e5 100644
--- a/src/kernels/cpu/caffe/bbox_util.cpp
+++ b/src/kernels/cpu/caffe/bbox_util.cpp
@@ -650,7 +650,7 @@ namespace ts {
                     }
                     if (all_loc_preds[i].find(label) == all_loc_preds[i].end()) {
                         // Something bad happened if there are no predictions for current label.
-                        LOG(FATAL) << "Could not find location predictions for label " << label;
+                        LOG(FATAL) << "Could not find location predictions for label " << label << eject;
                     }
                     const vector<NormalizedBBox> &label_loc_preds =
                             all_loc_preds[i].find(label)->second;
@@ -2171,7 +2171,7 @@ namespace ts {
                     prev_rec = (*rec)[i];
                 }
             } else {
-                LOG(FATAL) << "Unknown ap_version: " << ap_version;
+                LOG(FATAL) << "Unknown ap_version: " << ap_version << eject;
             }
         }
 
diff --git a/src/kernels/cpu/conv2d_v2.cpp b/src/kernels/cpu/conv2d_v2.cpp
index f008fdb..5e1e956 100644
--- a/src/kernels/cpu/conv2d_v2.cpp
+++ b/src/kernels/cpu/conv2d_v2.cpp
@@ -29,7 +29,7 @@ namespace ts {
 
             m_op_conv2d = OperatorCreator::Create(context.computing_device.type(), name::layer::conv2d(), false);
 
-            TS_CHECK_NQ(m_op_conv2d, nullptr) << "Can not find operator: " << name::layer::conv2d();
+            TS_CHECK_NQ(m_op_conv2d, nullptr) << "Can not find operator: " << name::layer::conv2d() << eject;
 
             m_op_conv2d->set(Bubble::RetentionParam::op, tensor::from(name::layer::conv2d_v2()));
             m_op_conv2d->set(Bubble::RetentionParam::name, tensor::from("_core" + name()));
diff --git a/src/kernels/cpu/conv2d_winograd_v2.cpp b/src/kernels/cpu/conv2d_winograd_v2.cpp
index 21425d7..2f8cb2d 100644
--- a/src/kernels/cpu/conv2d_winograd_v2.cpp
+++ b/src/kernels/cpu/conv2d_winograd_v2.cpp
@@ -24,7 +24,7 @@ namespace ts{
 
             auto &context = ctx::ref<DeviceContext>();
             m_op_conv2d_winograd = OperatorCreator::Create(context.computing_device.type(), name::layer::conv2d_winograd(), false);
-            TS_CHECK_NQ(m_op_conv2d_winograd, nullptr) << "Can not find operator: " << name::layer::conv2d();
+            TS_CHECK_NQ(m_op_conv2d_winograd, nullptr) << "Can not find operator: " << name::layer::conv2d() << eject;
 
             m_op_conv2d_winograd->set(Bubble::RetentionParam::op, tensor::from(name::layer::conv2d_winograd()));
             m_op_conv2d_winograd->set(Bubble::RetentionParam::name, tensor::from("_core" + name()));
diff --git a/src/kernels/cpu/crop_to.cpp b/src/kernels/cpu/crop_to.cpp
index 7d1a6e3..af8b289 100644
--- a/src/kernels/cpu/crop_to.cpp
+++ b/src/kernels/cpu/crop_to.cpp
@@ -54,7 +54,7 @@ namespace ts {
 
             m_pad_op = OperatorCreator::Create(context.computing_device.type(), name::layer::pad(), false);
 
-            TS_CHECK_NQ(m_pad_op, nullptr) << "Can not find operator: " << name::layer::pad();
+            TS_CHECK_NQ(m_pad_op, nullptr) << "Can not find operator: " << name::layer::pad() << eject;
 
             m_pad_op->set(name::padding_value, tensor::build(FLOAT32, {0.0f}));
 
diff --git a/src/kernels/cpu/depthwise_conv2d_v2.cpp b/src/kernels/cpu/depthwise_conv2d_v2.cpp
index a624e86..2b42cb7 100644
--- a/src/kernels/cpu/depthwise_conv2d_v2.cpp
+++ b/src/kernels/cpu/depthwise_conv2d_v2.cpp
@@ -27,7 +27,7 @@ namespace ts {
 
             m_op_conv2d = OperatorCreator::Create(context.computing_device.type(), name::layer::depthwise_conv2d(), false);
 
-            TS_CHECK_NQ(m_op_conv2d, nullptr) << "Can not find operator: " << name::layer::depthwise_conv2d();
+            TS_CHECK_NQ(m_op_conv2d, nullptr) << "Can not find operator: " << name::layer::depthwise_conv2d() << eject;
 
             m_op_conv2d->set(Bubble::RetentionParam::op, tensor::from(name::layer::depthwise_conv2d_v2()));
             m_op_conv2d->set(Bubble::RetentionParam::name, tensor::from("_core" + name()));
diff --git a/src/kernels/cpu/pooling2d_v2.cpp b/src/kernels/cpu/pooling2d_v2.cpp
index 06c9efa..c1e64a9 100644
--- a/src/kernels/cpu/pooling2d_v2.cpp
+++ b/src/kernels/cpu/pooling2d_v2.cpp
@@ -25,7 +25,7 @@ namespace ts {
 
             m_op_pooling2d = OperatorCreator::Create(context.computing_device.type(), name::layer::pooling2d(), false);
 
-            TS_CHECK_NQ(m_op_pooling2d, nullptr) << "Can not find operator: " << name::layer::pooling2d();
+            TS_CHECK_NQ(m_op_pooling2d, nullptr) << "Can not find operator: " << name::layer::pooling2d() << eject;
 
             m_op_pooling2d->set(Bubble::RetentionParam::op, tensor::from(name::layer::pooling2d_v2()));
             m_op_pooling2d->set(Bubble::RetentionParam::name, tensor::from("_core" + name()));
diff --git a/src/kernels/cpu/resize_nearest_neighbor.cpp b/src/kernels/cpu/resize_nearest_neighbor.cpp
index f6194e9..0906a65 100644
--- a/src/kernels/cpu/resize_nearest_neighbor.cpp
+++ b/src/kernels/cpu/resize_nearest_neighbor.cpp
@@ -32,7 +32,7 @@ namespace ts {
 
             m_op_resize2d = OperatorCreator::Create(context.computing_device.type(), name::layer::resize2d(), false);
 
-            TS_CHECK_NQ(m_op_resize2d, nullptr) << "Can not find operator: " << name::layer::resize2d();
+            TS_CHECK_NQ(m_op_resize2d, nullptr) << "Can not find operator: " << name::layer::resize2d() << eject;
 
             m_op_resize2d->set(Bubble::RetentionParam::op, tensor::from(name::layer::resize_nearest_neighbor()));
             m_op_resize2d->set(Bubble::RetentionParam::name, tensor::from("_core" + name()));
diff --git a/src/kernels/cpu/sample2d.cpp b/src/kernels/cpu/sample2d.cpp
index 104266d..04dd104 100644
--- a/src/kernels/cpu/sample2d.cpp
+++ b/src/kernels/cpu/sample2d.cpp
@@ -58,7 +58,7 @@ namespace ts {
 
             m_sample_op = OperatorCreator::Create(context.computing_device.type(), name::layer::affine_sample2d(), false);
 
-            TS_CHECK_NQ(m_sample_op, nullptr) << "Can not find operator: " << name::layer::affine_sample2d();
+            TS_CHECK_NQ(m_sample_op, nullptr) << "Can not find operator: " << name::layer::affine_sample2d() << eject;
 
             m_sample_op->set(name::type, get(name::type).clone());
             m_sample_op->set(name::outer_value, tensor::from<float>(0));
diff --git a/src/kernels/cpu/sample2d_v2.cpp b/src/kernels/cpu/sample2d_v2.cpp
index 33ee0f8..11f4fac 100644
--- a/src/kernels/cpu/sample2d_v2.cpp
+++ b/src/kernels/cpu/sample2d_v2.cpp
@@ -39,7 +39,7 @@ namespace ts {
 
             m_op_resize2d = OperatorCreator::Create(context.computing_device.type(), name::layer::resize2d(), false);
 
-            TS_CHECK_NQ(m_op_resize2d, nullptr) << "Can not find operator: " << name::layer::resize2d();
+            TS_CHECK_NQ(m_op_resize2d, nullptr) << "Can not find operator: " << name::layer::resize2d() << eject;
 
             m_op_resize2d->set(Bubble::RetentionParam::op, tensor::from(name::layer::resize_nearest_neighbor()));
             m_op_resize2d->set(Bubble::RetentionParam::name, tensor::from("_core" + name()));
diff --git a/src/memory/flow.cpp b/src/memory/flow.cpp
index 8963013..7fdc47c 100644
--- a/src/memory/flow.cpp
+++ b/src/memory/flow.cpp
@@ -24,7 +24,7 @@ namespace ts {
     VatMemoryController::VatMemoryController(const MemoryDevice &device) {
         TS_AUTO_CHECK(m_impl.get() != nullptr);
         auto hard_allocator = HardAllocator::Query(device.type());
-        TS_CHECK(hard_allocator != nullptr) << "Can not found memory controller for " << device.type();
+        TS_CHECK(hard_allocator != nullptr) << "Can not found memory controller for " << device.type() << eject;
         using namespace std::placeholders;
         auto hard_free = std::bind(hard_allocator, device.id(), 0, _1, 0);
         auto pot_allocator = [hard_allocator, device, hard_free](size_t size) -> std::shared_ptr<void> {
diff --git a/src/module/module.cpp b/src/module/module.cpp
index f39de8e..6144a08 100644
--- a/src/module/module.cpp
+++ b/src/module/module.cpp
@@ -362,7 +362,7 @@ namespace ts {
                                 Module::SerializationFormat format) {
         FileStreamReaderV2 stream(filename);
         // all SerializationFormat checked here
-        TS_CHECK(format == BINARY);
+        TS_CHECK(format == BINARY) << eject;
         return LoadV2(stream, buffer, buffer_size, format);
     }
 
-- 
2.43.0


From ae11078e4c0403dd5baf41d084278682d85a2b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 03/54] fix: contain every exception at the C interface and
 report it

---
 src/api/declaration.h      | 11 +++++++++--
 src/api/declare_operator.h |  7 ++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/api/declaration.h b/src/api/declaration.h
index 4ce97f6..5b7cd00 100644
--- a/src/api/declaration.h
+++ b/src/api/declaration.h
@@ -5,6 +5,7 @@
 #ifndef TENNIS_API_DECLARATION_H
 #define TENNIS_API_DECLARATION_H
 
+#include <exception>
 #include <memory>
 #include "errno.h"
 #include "utils/except.h"
@@ -35,13 +36,19 @@ try {
 
 #define RETURN_OR_CATCH(ret, cat) \
 return ret; \
-} catch (const Exception &e) { \
+} catch (const std::exception &e) { \
 ts::api::SetLEM(e.what()); \
 return cat; \
+} catch (...) { \
+ts::api::SetLEM("Unknown exception."); \
+return cat; \
 }
 
 #define TRY_TAIL \
-} catch (const Exception &) { \
+} catch (const std::exception &e) { \
+ts::api::SetLEM(e.what()); \
+} catch (...) { \
+ts::api::SetLEM("Unknown exception."); \
 }
 
 #endif //TENNIS_API_DECLARATION_H
diff --git a/src/api/declare_operator.h b/src/api/declare_operator.h
index 52b482d..6bdf336 100644
--- a/src/api/declare_operator.h
+++ b/src/api/declare_operator.h
@@ -34,12 +34,9 @@ public:
                 auto &tensor = stack[i];
                 args.emplace_back(new ts_Tensor(tensor));
             }
-        } catch (const ts::Exception &e) {
+        } catch (...) {
             for (auto &arg : args) delete arg;
-            throw e;
-        } catch (const std::exception &e) {
-            for (auto &arg : args) delete arg;
-            throw e;
+            throw;
         }
     }
 
-- 
2.43.0


From bd8789b7642ba8a2fd85f5d1ac49110fbe67c516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 04/54] fix: check the remaining pointer arguments of the C
 interface for null

---
 src/api/common.cpp       | 2 +-
 src/api/operator.cpp     | 7 +++++++
 src/api/operator_gpu.cpp | 1 +
 src/api/plugin.cpp       | 4 +++-
 src/api/tensor.cpp       | 1 +
 src/api/workbench.cpp    | 3 +++
 6 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/api/common.cpp b/src/api/common.cpp
index 69ca17c..dd6471e 100644
--- a/src/api/common.cpp
+++ b/src/api/common.cpp
@@ -13,5 +13,5 @@ const char *ts_last_error_message() {
 }
 
 void ts_set_error_message(const char *message) {
-    SetLEM(message);
+    SetLEM(message ? message : "");
 }
diff --git a/src/api/operator.cpp b/src/api/operator.cpp
index 8b501e8..aef9623 100644
--- a/src/api/operator.cpp
+++ b/src/api/operator.cpp
@@ -144,6 +144,8 @@ void ts_Operator_Register(const char *device, const char *op,
                           ts_new_Operator *f_new, ts_free_Operator *f_free,
                           ts_Operator_init *f_init, ts_Operator_infer *f_infer, ts_Operator_run *f_run) {
     TRY_HEAD
+    if (!device) throw Exception("NullPointerException: @param: 1");
+    if (!op) throw Exception("NullPointerException: @param: 2");
     if (f_new == nullptr || f_free == nullptr || f_init == nullptr || f_run == nullptr) {
         TS_LOG_ERROR << "f_new, f_free, f_init and f_run can't be nullptr" << eject;
     }
@@ -160,6 +162,8 @@ void ts_Operator_Register(const char *device, const char *op,
 
 ts_Tensor *ts_OperatorParams_get(const ts_OperatorParams *dict, const char *param) {
     TRY_HEAD
+    if (!dict) throw Exception("NullPointerException: @param: 1");
+    if (!param) throw Exception("NullPointerException: @param: 2");
     std::string cpp_param(param);
     if (dict->op->has(cpp_param)) {
         std::unique_ptr<ts_Tensor> value(new ts_Tensor(dict->op->get(cpp_param)));
@@ -177,6 +181,7 @@ void ts_Operator_Throw(const char *message) {
 }
 
 void ts_Operator_ThrowV2(const char *message, const char *filename, int32_t line_number) {
+    if (filename == nullptr) filename = "";
     if (message == nullptr) {
         LogStream(LOG_ERROR) << "[" << filename << ":" << line_number << "]: [TS API]: Unknown exception." << eject;
     } else {
@@ -187,6 +192,8 @@ void ts_Operator_ThrowV2(const char *message, const char *filename, int32_t line
 void ts_Operator_RegisterEx(const char *device, const char *op, ts_new_Operator *f_new, ts_free_Operator *f_free,
                             ts_Operator_init_ex *f_init, ts_Operator_infer *f_infer, ts_Operator_run *f_run) {
     TRY_HEAD
+        if (!device) throw Exception("NullPointerException: @param: 1");
+        if (!op) throw Exception("NullPointerException: @param: 2");
         if (f_new == nullptr || f_free == nullptr || f_init == nullptr || f_run == nullptr) {
             TS_LOG_ERROR << "f_new, f_free, f_init and f_run can't be nullptr" << eject;
         }
diff --git a/src/api/operator_gpu.cpp b/src/api/operator_gpu.cpp
index 9689159..c2c22f5 100644
--- a/src/api/operator_gpu.cpp
+++ b/src/api/operator_gpu.cpp
@@ -13,6 +13,7 @@ using namespace ts;
 
 void *ts_OperatorContext_cuda_stream(ts_OperatorContext *context) {
     TRY_HEAD
+        if (!context) throw Exception("NullPointerException: @param: 1");
         if (context->device->computing_device != GPU)
             TS_LOG_ERROR << "The computing device is not gpu! " << eject;
         CUDAContextHandle* handle = reinterpret_cast<CUDAContextHandle*>(context->device->handle);
diff --git a/src/api/plugin.cpp b/src/api/plugin.cpp
index a87925c..6d39096 100644
--- a/src/api/plugin.cpp
+++ b/src/api/plugin.cpp
@@ -36,19 +36,20 @@ ts_op_creator_map* ts_plugin_get_creator_map(){
 
 void ts_plugin_flush_creator(ts_op_creator_map* creator_map){
     TRY_HEAD
+    if (!creator_map) throw Exception("NullPointerException: @param: 1");
     OperatorCreator::flush(creator_map->map);
     TRY_TAIL
 }
 
 void ts_plugin_free_creator_map(ts_op_creator_map* creator_map){
     TRY_HEAD
-    creator_map->map.clear();
     delete(creator_map);
     TRY_TAIL
 }
 
 ts_device_context* ts_plugin_initial_device_context(const ts_Device *device){
     TRY_HEAD
+    if (!device) throw Exception("NullPointerException: @param: 1");
     std::shared_ptr<DeviceContext> device_context = std::make_shared<DeviceContext>();
     device_context->initialize(ComputingDevice(device->type, device->id));
     DeviceContext::Switch(device_context.get());
@@ -64,6 +65,7 @@ void ts_plugin_free_device_context(ts_device_context* device){
 
 void ts_plugin_bind_device_context(ts_device_context* device){
     TRY_HEAD
+    if (!device) throw Exception("NullPointerException: @param: 1");
     DeviceContext::Switch(device->pointer.get());
     TRY_TAIL
 }
diff --git a/src/api/tensor.cpp b/src/api/tensor.cpp
index 04fe886..f707ca0 100644
--- a/src/api/tensor.cpp
+++ b/src/api/tensor.cpp
@@ -113,6 +113,7 @@ ts_Tensor *ts_Tensor_cast(ts_Tensor *tensor, ts_DTYPE dtype) {
 ts_Tensor *ts_Tensor_reshape(ts_Tensor *tensor, const int32_t *shape, int32_t shape_len) {
     TRY_HEAD
         if (!tensor) throw Exception("NullPointerException: @param: 1");
+        if (!shape && shape_len > 0) throw Exception("NullPointerException: @param: 2");
         std::unique_ptr<ts_Tensor> dolly(new ts_Tensor((*tensor)->reshape(Shape(shape, shape + shape_len))));
     RETURN_OR_CATCH(dolly.release(), nullptr)
 }
diff --git a/src/api/workbench.cpp b/src/api/workbench.cpp
index 0cd6a89..02891ca 100644
--- a/src/api/workbench.cpp
+++ b/src/api/workbench.cpp
@@ -188,6 +188,9 @@ ts_bool ts_Workbench_run_hook(ts_Workbench *workbench, const char **node_names,
     TRY_HEAD
         if (!workbench) throw Exception("NullPointerException: @param: 1");
         if (!node_names) throw Exception("NullPointerException: @param: 2");
+        for (int32_t i = 0; i < len; ++i) {
+            if (!node_names[i]) throw Exception("NullPointerException: @param: node_names[" + std::to_string(i) + "]");
+        }
         (*workbench)->run_hook(std::vector<std::string>(node_names, node_names + len));
     RETURN_OR_CATCH(ts_true, ts_false)
 }
-- 
2.43.0


From 098570fb64d13c85f2f0b7a0e77655389cc86d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 05/54] fix: refuse Workbench::run_hook before a program is set
 up

---
 src/runtime/workbench.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index a3bcaf4..946aa42 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -582,6 +582,10 @@ namespace ts {
     }
 
     void Workbench::run_hook(const std::vector<std::string> &node_names) {
+        if (m_desktop == nullptr) {
+            TS_LOG_ERROR << "Can not run workbench with no program setup" << eject;
+        }
+
         this->m_hooked_tensor.clear();
 
         auto controller = std::make_shared<DynamicMemoryController>(MemoryDevice(CPU));
-- 
2.43.0


From ff2113b09aaac4ff18f275c226ea73e0de6a4a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 06/54] fix: report failed tensor loads and saves in the C++
 client wrapper

---
 include/api/cpp/tensor.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/api/cpp/tensor.h b/include/api/cpp/tensor.h
index 1652221..bcf3c21 100644
--- a/include/api/cpp/tensor.h
+++ b/include/api/cpp/tensor.h
@@ -398,15 +398,17 @@ namespace ts {
             }
 
             inline Tensor load(const std::string &path) {
-                return Tensor::NewRef(ts_Tensor_load(path.c_str()));
+                auto loaded_raw = ts_Tensor_load(path.c_str());
+                TS_API_AUTO_CHECK(loaded_raw != nullptr);
+                return Tensor::NewRef(loaded_raw);
             }
 
             inline void save(const std::string &path, const Tensor &tensor) {
-                ts_Tensor_save(path.c_str(), tensor.get_raw());
+                TS_API_AUTO_CHECK(ts_Tensor_save(path.c_str(), tensor.get_raw()));
             }
 
             inline void save(const std::string &path, const ts_Tensor *tensor) {
-                ts_Tensor_save(path.c_str(), tensor);
+                TS_API_AUTO_CHECK(ts_Tensor_save(path.c_str(), tensor));
             }
         }
     }
-- 
2.43.0


From 6b6c58f11563d61e15e8aa591f4e4013270c8100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 07/54] fix: print the 16-bit element types under their own
 names

---
 include/api/cpp/dtype.h | 4 ++--
 include/core/dtype.h    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/api/cpp/dtype.h b/include/api/cpp/dtype.h
index 226ccfb..b0cfd1b 100644
--- a/include/api/cpp/dtype.h
+++ b/include/api/cpp/dtype.h
@@ -71,8 +71,8 @@ namespace ts {
                 case TS_VOID: return "void";
                 case TS_INT8: return "int8";
                 case TS_UINT8: return "uint8";
-                case TS_INT16: return "int64";
-                case TS_UINT16: return "uint64";
+                case TS_INT16: return "int16";
+                case TS_UINT16: return "uint16";
                 case TS_INT32: return "int32";
                 case TS_UINT32: return "uint32";
                 case TS_INT64: return "int64";
diff --git a/include/core/dtype.h b/include/core/dtype.h
index 039b084..a17a03c 100644
--- a/include/core/dtype.h
+++ b/include/core/dtype.h
@@ -91,8 +91,8 @@ namespace ts {
             case VOID: return "void";
             case INT8: return "int8";
             case UINT8: return "uint8";
-            case INT16: return "int64";
-            case UINT16: return "uint64";
+            case INT16: return "int16";
+            case UINT16: return "uint16";
             case INT32: return "int32";
             case UINT32: return "uint32";
             case INT64: return "int64";
-- 
2.43.0


From 41769d4f740382d179d98fd018813b9003f29a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 08/54] fix: convert the dims parameter of reduce_mean to int32
 before reading it

---
 src/backend/base/base_reduce_mean.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/base/base_reduce_mean.cpp b/src/backend/base/base_reduce_mean.cpp
index b24aad3..8a9f065 100644
--- a/src/backend/base/base_reduce_mean.cpp
+++ b/src/backend/base/base_reduce_mean.cpp
@@ -22,7 +22,7 @@ namespace ts {
             supper::init();
 
             m_dims.clear();
-            auto dims_tensor = this->get("dims");
+            auto dims_tensor = tensor::cast(INT32, this->get("dims"));
             int dims_dim = int(dims_tensor.dims());
             size_t dims_count = dims_dim == 0 ? 1 : (size_t)dims_tensor.size(0);
             m_dims.resize(dims_count);
-- 
2.43.0


From aa79a3384b8ae4f760661dfbea3f59bb95ead1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 09/54] fix: select the argmax variant by the element type of
 its input

---
 src/kernels/cpu/argmax.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernels/cpu/argmax.cpp b/src/kernels/cpu/argmax.cpp
index 1e7b26e..26b4a6d 100644
--- a/src/kernels/cpu/argmax.cpp
+++ b/src/kernels/cpu/argmax.cpp
@@ -53,7 +53,7 @@ namespace ts {
 
 
         void ArgMax::argmax(const Tensor &x, int dim, Tensor &out) {
-            DTYPE dtype = out.dtype();
+            DTYPE dtype = x.dtype();
            
             switch (dtype) {
 #define DECLARE_COMPUTE_RUN(DTYPE, TYPE) \
-- 
2.43.0


From 22a14362168e9819bf217cb5d9963de64eed34a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 10/54] fix: carry input/output names when cloning a program

---
 src/runtime/program.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/program.cpp b/src/runtime/program.cpp
index 4caedf7..cb716f0 100644
--- a/src/runtime/program.cpp
+++ b/src/runtime/program.cpp
@@ -173,6 +173,10 @@ namespace ts {
         dolly->m_input_dtypes = m_input_dtypes;
         dolly->m_output_dtypes = m_output_dtypes;
 
+        // copy names
+        dolly->m_input_names = m_input_names;
+        dolly->m_output_names = m_output_names;
+
         return std::move(dolly);
     }
 
-- 
2.43.0


From 91b4ebf3cdedc68da6529045da5187f829c9a109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 11/54] fix: move the shape of a bubble with the rest of it

---
 src/module/bubble.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/bubble.cpp b/src/module/bubble.cpp
index a377824..7d86612 100644
--- a/src/module/bubble.cpp
+++ b/src/module/bubble.cpp
@@ -41,6 +41,7 @@ namespace ts {
         this->m_name = std::move(other.m_name);
         // this->m_output_count = other.m_output_count;
         this->m_params = std::move(other.m_params);
+        this->m_shape = std::move(other.m_shape);
         return *this;
     }
 
-- 
2.43.0


From cfab18d02189af27a7b15efb11555846542ff64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 12/54] fix: clone an image filter with its pipeline, compiled
 or not

---
 src/runtime/image_filter.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/runtime/image_filter.cpp b/src/runtime/image_filter.cpp
index 37452e9..44792d5 100644
--- a/src/runtime/image_filter.cpp
+++ b/src/runtime/image_filter.cpp
@@ -14,6 +14,7 @@
 #include "runtime/workbench.h"
 
 #include <numeric>
+#include <unordered_map>
 
 namespace ts {
 
@@ -200,6 +201,20 @@ namespace ts {
 
     }
 
+    // copy the graph, the dolly shares no node with the source
+    static Graph::shared clone_graph(const Graph &graph) {
+        auto dolly = std::make_shared<Graph>();
+        std::unordered_map<const void *, Node> cloned_nodes;
+        for (auto &node : graph.nodes()) {
+            Node cloned = dolly->make(node.bubble());
+            std::vector<Node> inputs;
+            for (auto &input : node.inputs()) inputs.emplace_back(cloned_nodes.at(input.ptr()));
+            Node::Link(cloned, inputs);
+            cloned_nodes.insert(std::make_pair(static_cast<const void *>(node.ptr()), cloned));
+        }
+        return dolly;
+    }
+
     ImageFilter::shared ImageFilter::clone() const {
         ImageFilter::shared dolly(new ImageFilter(*this->m_impl));
         return dolly;
@@ -207,9 +222,9 @@ namespace ts {
 
     ImageFilter::ImageFilter(const ImageFilter::Implement &other) {
         m_impl->m_computing_device = other.m_computing_device;
-        this->clear();
-        m_impl->m_program = other.m_program->clone();
-        m_impl->m_compiled = true;
+        m_impl->m_graph = clone_graph(*other.m_graph);
+        if (other.m_program) m_impl->m_program = other.m_program->clone();
+        m_impl->m_compiled = other.m_compiled;
     }
 
     const Graph &ImageFilter::graph() const {
-- 
2.43.0


From e9b542b87259824d359aa166cdc7f2ad4139a625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 13/54] fix: keep the profiling switch when cloning a workbench

---
 src/runtime/workbench.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index 946aa42..5ebf86c 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -170,6 +170,7 @@ namespace ts {
         dolly->m_inputs.resize(this->m_inputs.size());
         dolly->m_outputs.resize(this->m_outputs.size());
         dolly->m_runtime_context = this->m_runtime_context.clone();
+        dolly->m_do_profile = this->m_do_profile;
         if (this->m_desktop) {
             dolly->m_desktop = this->m_desktop->clone();
         }
-- 
2.43.0


From c2795f786dfa78bc3608a056096b5620a838bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 14/54] fix: move every member of a device context and leave it
 one owner of the handle

---
 include/core/device_context.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/core/device_context.h b/include/core/device_context.h
index ceb05c4..58b9da8 100644
--- a/include/core/device_context.h
+++ b/include/core/device_context.h
@@ -66,8 +66,9 @@ namespace ts {
             *this = std::move(other);
         }
         DeviceContext &operator=(self &&other) TS_NOEXCEPT {
-#define MOVE_MEMBER(member) this->member = std::move(other.member)
+#define MOVE_MEMBER(member) std::swap(this->member, other.member)
             MOVE_MEMBER(handle);
+            MOVE_MEMBER(origin_device);
             MOVE_MEMBER(computing_device);
             MOVE_MEMBER(memory_device);
             MOVE_MEMBER(m_device_admin);
-- 
2.43.0


From eb393c742a44125a87851dbfaa682c76d409ed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 15/54] fix: swap the allocator of a vat with its blocks

---
 src/memory/orz/vat.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/memory/orz/vat.cpp b/src/memory/orz/vat.cpp
index d2e244c..9c49995 100644
--- a/src/memory/orz/vat.cpp
+++ b/src/memory/orz/vat.cpp
@@ -93,8 +93,10 @@ namespace ts {
 
     void Vat::swap(Vat &that)
     {
+        std::swap(this->m_allocator, that.m_allocator);
         this->m_heap.swap(that.m_heap);
         this->m_dict.swap(that.m_dict);
+        std::swap(this->m_deprecated, that.m_deprecated);
     }
 
     Vat::Vat(Vat &&that)
-- 
2.43.0


From 53cb55e11f4b611f9bf22eeae02a072e6575e3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 16/54] fix: release the replaced block when a hard memory is
 move-assigned

---
 src/core/hard_memory.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/core/hard_memory.cpp b/src/core/hard_memory.cpp
index cfaa7cf..ae3b053 100644
--- a/src/core/hard_memory.cpp
+++ b/src/core/hard_memory.cpp
@@ -81,12 +81,7 @@ namespace ts {
     }
 
     HardMemory &HardMemory::operator=(self &&other) TS_NOEXCEPT {
-#define MOVE_MEMBER(member) this->member = std::move(other.member)
-        MOVE_MEMBER(m_device);
-        MOVE_MEMBER(m_capacity);
-        MOVE_MEMBER(m_data);
-        MOVE_MEMBER(m_allocator);
-#undef MOVE_MEMBER
+        this->swap(other);
         return *this;
     }
 }
-- 
2.43.0


From 669e6f5a0f08a3b248bde5674a0b041cc0025498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 17/54] fix: keep the message when a device mismatch exception
 is moved

---
 include/core/device.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/core/device.h b/include/core/device.h
index d23a3c9..46ad6a6 100644
--- a/include/core/device.h
+++ b/include/core/device.h
@@ -167,6 +167,7 @@ namespace ts {
 
         DeviceMismatchException &operator=(self &&other) TS_NOEXCEPT {
 #define MOVE_MEMBER(member) this->member = std::move(other.member)
+            supper::operator=(std::move(other));
             MOVE_MEMBER(m_needed);
             MOVE_MEMBER(m_given);
 #undef MOVE_MEMBER
-- 
2.43.0


From 29deadd7dc72c74bfa9d8f77fe6962e573120183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:26 +0000
Subject: [PATCH 18/54] fix: keep stack accesses within the current frame

---
 src/runtime/stack.cpp | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/runtime/stack.cpp b/src/runtime/stack.cpp
index 55c4fbc..6e47885 100644
--- a/src/runtime/stack.cpp
+++ b/src/runtime/stack.cpp
@@ -4,6 +4,7 @@
 
 #include "runtime/stack.h"
 #include "core/device_context.h"
+#include "utils/assert.h"
 
 namespace ts {
 
@@ -61,33 +62,53 @@ namespace ts {
         return this->push(tensor.clone(this->m_controller, device));
     }
 
-    Tensor *Stack::index(int i) { return &this->m_stack.at(relative2absolute(i)); }
+    Tensor *Stack::index(int i) {
+        TS_AUTO_CHECK(i >= -int(this->size()));    // never reach below the base
+        return &this->m_stack.at(relative2absolute(i));
+    }
 
-    const Tensor *Stack::index(int i) const { return &this->m_stack.at(relative2absolute(i)); }
+    const Tensor *Stack::index(int i) const {
+        TS_AUTO_CHECK(i >= -int(this->size()));
+        return &this->m_stack.at(relative2absolute(i));
+    }
 
-    Tensor *Stack::top() { return &this->m_stack.back(); }
+    Tensor *Stack::top() {
+        TS_AUTO_CHECK(this->size() > 0);
+        return &this->m_stack.back();
+    }
 
-    const Tensor *Stack::top() const { return &this->m_stack.back(); }
+    const Tensor *Stack::top() const {
+        TS_AUTO_CHECK(this->size() > 0);
+        return &this->m_stack.back();
+    }
 
     void Stack::pop(size_t pop_size) {
+        TS_AUTO_CHECK(pop_size <= this->size());
         auto it_end = this->m_stack.end();
         auto it_beg = it_end - pop_size;
         this->m_stack.erase(it_beg, it_end);
     }
 
-    void Stack::pop() { this->m_stack.pop_back(); }
+    void Stack::pop() {
+        TS_AUTO_CHECK(this->size() > 0);
+        this->m_stack.pop_back();
+    }
 
     size_t Stack::size() const { return m_stack.size() - m_base; }
 
     void Stack::erase(int i) {
+        TS_AUTO_CHECK(i >= -int(this->size()) && i < int(this->size()));
         auto it = this->m_stack.begin() + relative2absolute(i);
         this->m_stack.erase(it);
     }
 
     void Stack::erase(int beg, int end) {
-        auto beg_it = this->m_stack.begin() + relative2absolute(beg);
-        auto end_it = this->m_stack.begin() + relative2absolute(end);
-        // TS_AUTO_CHECK(end_it - beg_it >= 0);
+        auto count = int(this->size());
+        auto first = beg >= 0 ? beg : count + beg;
+        auto last = end >= 0 ? end : count + end;
+        TS_AUTO_CHECK(0 <= first && first <= last && last <= count);
+        auto beg_it = this->m_stack.begin() + m_base + first;
+        auto end_it = this->m_stack.begin() + m_base + last;
         this->m_stack.erase(beg_it, end_it);
     }
 
@@ -99,6 +120,7 @@ namespace ts {
     }
 
     void Stack::push_base(int i) {
+        TS_AUTO_CHECK(i >= -int(this->size()) && i <= int(this->size()));
         this->m_base_stack.push(this->rebase(relative2absolute(i)));
     }
 
-- 
2.43.0


From fc06a063ce1aa15250127555a6a57a8757a0857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:26 +0000
Subject: [PATCH 19/54] fix: announce and size prior boxes by the operands that
 were given

---
 src/kernels/cpu/prior_box.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/prior_box.cpp b/src/kernels/cpu/prior_box.cpp
index d979dda..50c512b 100644
--- a/src/kernels/cpu/prior_box.cpp
+++ b/src/kernels/cpu/prior_box.cpp
@@ -153,7 +153,7 @@ namespace ts {
                 TS_AUTO_ASSERT(stack.size() >= 1);
 
                 output.resize(1);
-                output[0] = Tensor::Prototype(stack[0].dtype(), infer_top_shape(stack[0]));
+                output[0] = Tensor::Prototype(FLOAT32, infer_top_shape(stack[0]));
                 return 1;
             }
 
@@ -164,6 +164,7 @@ namespace ts {
 
             int run(Stack &stack) final {
                 TS_AUTO_CHECK(stack.size() >= 1);
+                const auto nargs = stack.size();
                 auto feat = tensor::cast(FLOAT32, stack[0]);
                 auto &top = *stack.push(FLOAT32, infer_top_shape(feat), CPU);
                 using Dtype = float;
@@ -172,7 +173,7 @@ namespace ts {
                 const int layer_height = feat.size(2);
                 int img_width, img_height;
                 if (img_h_ == 0 || img_w_ == 0) {
-                    TS_AUTO_ASSERT(stack.size() > 1);
+                    TS_AUTO_ASSERT(nargs > 1);
                     auto &img = stack[1];
                     img_width = img.size(3);
                     img_height = img.size(2);
-- 
2.43.0


From 7d865468bee332af3a449d7a646d9c700033a185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:08 +0000
Subject: [PATCH 20/54] fix: run the base initialisation of roi_align and
 proposal

Without it missing required parameters were accepted and shape inference
announced empty regions of interest.
---
 src/kernels/cpu/proposal.cpp  | 2 ++
 src/kernels/cpu/roi_align.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/kernels/cpu/proposal.cpp b/src/kernels/cpu/proposal.cpp
index e6166a6..669ae44 100644
--- a/src/kernels/cpu/proposal.cpp
+++ b/src/kernels/cpu/proposal.cpp
@@ -24,6 +24,8 @@ namespace ts {
             int m_output_size;
 
             void init() override {
+                base::Proposal::init();
+
                 dragon::Workspace ws;
                 m_dragon = std::make_shared<dragon::ProposalOp<dragon::CPUContext>>(this, &ws);
                 auto max_level = tensor::to_int(get("max_level"));
diff --git a/src/kernels/cpu/roi_align.cpp b/src/kernels/cpu/roi_align.cpp
index dc51223..5232955 100644
--- a/src/kernels/cpu/roi_align.cpp
+++ b/src/kernels/cpu/roi_align.cpp
@@ -23,6 +23,8 @@ namespace ts {
             std::shared_ptr<dragon::ROIAlignOp<dragon::CPUContext>> m_dragon;
 
             void init() override {
+                base::ROIAlign::init();
+
                 dragon::Workspace ws;
                 m_dragon = std::make_shared<dragon::ROIAlignOp<dragon::CPUContext>>(this, &ws);
             }
-- 
2.43.0


From 8fe5bf6805ec0db0c3aa865090ac56c0494afbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:08 +0000
Subject: [PATCH 21/54] fix: declare the dilation of conv2d_padding as the
 required parameter it is

---
 src/backend/dragon/conv2d_padding.cpp | 2 +-
 src/backend/tf/conv2d_padding.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/dragon/conv2d_padding.cpp b/src/backend/dragon/conv2d_padding.cpp
index 99b3576..13c7b4f 100644
--- a/src/backend/dragon/conv2d_padding.cpp
+++ b/src/backend/dragon/conv2d_padding.cpp
@@ -15,7 +15,7 @@ namespace ts {
         Conv2DPadding::Conv2DPadding() {
             field(name::format, REQUIRED);
             field(name::stride, REQUIRED);
-            field(name::dilation, OPTIONAL);
+            field(name::dilation, REQUIRED);
             this->field(name::padding_method, OPTIONAL, tensor::from(name::VALID));
             this->field(name::padding, OPTIONAL, tensor::build(INT32, {4, 2}, {0, 0, 0, 0, 0, 0, 0, 0}));
         }
diff --git a/src/backend/tf/conv2d_padding.cpp b/src/backend/tf/conv2d_padding.cpp
index 12e591f..4412e42 100644
--- a/src/backend/tf/conv2d_padding.cpp
+++ b/src/backend/tf/conv2d_padding.cpp
@@ -14,7 +14,7 @@ namespace ts {
         Conv2DPadding::Conv2DPadding() {
             field(name::format, REQUIRED);
             field(name::stride, REQUIRED);
-            field(name::dilation, OPTIONAL);
+            field(name::dilation, REQUIRED);
             this->field(name::padding_method, REQUIRED);
             this->field(name::padding, OPTIONAL, tensor::build(INT32, {4, 2}, {0, 0, 0, 0, 0, 0, 0, 0}));
         }
-- 
2.43.0


From f3f5e4c84163dbe30d18705019148c5d8f26ac71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 22/54] fix: give the element functions of mul and mod internal
 linkage

Both defined the same external templates with different bodies, so without
inlining one operator computed the other's function.
---
 src/kernels/cpu/mod.cpp | 4 ++--
 src/kernels/cpu/mul.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kernels/cpu/mod.cpp b/src/kernels/cpu/mod.cpp
index bb80cfe..84dee8d 100644
--- a/src/kernels/cpu/mod.cpp
+++ b/src/kernels/cpu/mod.cpp
@@ -16,11 +16,11 @@
 namespace ts {
     namespace cpu {
         template <typename T>
-        inline void reduce_operator(T &x, T lhs, T rhs) {
+        static inline void reduce_operator(T &x, T lhs, T rhs) {
             x = lhs % rhs;
         }
         template <typename T>
-        inline void reduce_operator(T &x, T y) {
+        static inline void reduce_operator(T &x, T y) {
             x %= y;
         }
 
diff --git a/src/kernels/cpu/mul.cpp b/src/kernels/cpu/mul.cpp
index c2ceeca..e20c195 100644
--- a/src/kernels/cpu/mul.cpp
+++ b/src/kernels/cpu/mul.cpp
@@ -16,11 +16,11 @@
 namespace ts {
     namespace cpu {
         template <typename T>
-        inline void reduce_operator(T &x, T lhs, T rhs) {
+        static inline void reduce_operator(T &x, T lhs, T rhs) {
             x = lhs * rhs;
         }
         template <typename T>
-        inline void reduce_operator(T &x, T y) {
+        static inline void reduce_operator(T &x, T y) {
             x *= y;
         }
 
-- 
2.43.0


From ead20da41d991f5383ce39156760770af563110d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:43 +0000
Subject: [PATCH 23/54] fix: build the concat and broadcast nodes as concat and
 broadcast

---
 src/frontend/symbol.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frontend/symbol.cpp b/src/frontend/symbol.cpp
index 860b9ac..dc5c22b 100644
--- a/src/frontend/symbol.cpp
+++ b/src/frontend/symbol.cpp
@@ -65,7 +65,7 @@ namespace ts {
         }
 
         Node concat(const std::string &name, const std::vector<Node> &x, int32_t dim) {
-            Node node = bubble::bubble(desc::gather(dim), name);
+            Node node = bubble::bubble(desc::concat(dim), name);
             Node::Link(node, x);
             return node;
         }
@@ -103,7 +103,7 @@ namespace ts {
         }
 
         Node broadcast(const std::string &name, const Node &x, const Node &shape) {
-            Node node = bubble::bubble(desc::matmul(), name);
+            Node node = bubble::bubble(desc::broadcast(), name);
             Node::Link(node, {x, shape});
             return node;
         }
-- 
2.43.0


From 4cbccef60f70c73c420bfe2d753aa67b75388f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 24/54] fix: count shared tensor memory atomically

---
 include/core/threadsafe/smart.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/core/threadsafe/smart.h b/include/core/threadsafe/smart.h
index 58d11cd..b02c73a 100644
--- a/include/core/threadsafe/smart.h
+++ b/include/core/threadsafe/smart.h
@@ -52,13 +52,13 @@ namespace ts {
         Counter &operator==(self &&other) TS_NOEXCEPT {
 #define MOVE_MEMBER(member) this->member = std::move(other.member)
             MOVE_MEMBER(object);
-            MOVE_MEMBER(use_count);
+            this->use_count = other.use_count.load();
 #undef MOVE_MEMBER
             return *this;
         }
 
         Object *object = nullptr;
-        int use_count = 0;
+        std::atomic<int> use_count{0};
         Deleter deleter = default_deleter<T>();
     };
 
@@ -113,8 +113,7 @@ namespace ts {
 
         void dispose() {
             if (m_counted && m_mode == SMART) {
-                --m_counted->use_count;
-                if (m_counted->use_count <= 0) {
+                if (--m_counted->use_count <= 0) {
                     delete m_counted;
                     m_counted = nullptr;
                 }
-- 
2.43.0


From dc661a890105a892be854e985293a3d960001690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 25/54] fix: stop a worker thread under its lock so that the
 wake-up is not lost

---
 src/runtime/inside/thread_pool.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/runtime/inside/thread_pool.cpp b/src/runtime/inside/thread_pool.cpp
index 3540e7b..ce97b74 100644
--- a/src/runtime/inside/thread_pool.cpp
+++ b/src/runtime/inside/thread_pool.cpp
@@ -13,8 +13,11 @@ namespace ts {
     }
 
     Thread::~Thread() {
-        is_running = false;
-        task_cond.notify_all();
+        {
+            std::unique_lock<std::mutex> locker(task_mutex);
+            is_running = false;
+            task_cond.notify_all();
+        }
         core.join();
     }
 
-- 
2.43.0


From ba28c12793c83de384189f4122c3ff5eb7662fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 26/54] fix: guard the process-wide cpu power mode with a lock

---
 src/utils/cpu.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utils/cpu.cpp b/src/utils/cpu.cpp
index 06c676e..aa7cb55 100644
--- a/src/utils/cpu.cpp
+++ b/src/utils/cpu.cpp
@@ -6,6 +6,7 @@
 #include <fstream>
 #include <regex>
 #include <vector>
+#include <mutex>
 #include <memory.h>
 
 #if TS_PLATFORM_OS_ANDROID
@@ -25,6 +26,7 @@ namespace ts{
         float max_freq;
     }CpuInfo;
 
+    static std::mutex cpu_power_mutex;   ///< guards the power mode and the core lists
     static std::vector<int> cpu_big_ids;
     static std::vector<int> cpu_little_ids;
     static bool g_set_cpu_set_power_mode_flag = false;
@@ -191,6 +193,7 @@ namespace ts{
 
     int CpuEnable::get_cpu_big_num()
     {
+        std::unique_lock<std::mutex> _locker(cpu_power_mutex);
         if (g_set_cpu_set_power_mode_flag)
             return int(cpu_big_ids.size());
         return -1;
@@ -198,6 +201,7 @@ namespace ts{
 
     int CpuEnable::get_cpu_little_num()
     {
+        std::unique_lock<std::mutex> _locker(cpu_power_mutex);
         if (g_set_cpu_set_power_mode_flag)
             return int(cpu_little_ids.size());
         return -1;
@@ -207,6 +211,7 @@ namespace ts{
     {
     //NOTE:only support androi and linux now
 #if TS_PLATFORM_OS_ANDROID || TS_PLATFORM_OS_LINUX
+        std::unique_lock<std::mutex> _locker(cpu_power_mutex);
         static std::vector<int> cpu_sorted_ids;
         if(cpu_sorted_ids.empty()){
             split_cpu_big_little(cpu_sorted_ids, cpu_big_ids, cpu_little_ids);
@@ -265,6 +270,7 @@ namespace ts{
 
     CpuEnable::CpuPowerMode CpuEnable::get_power_mode()
     {
+        std::unique_lock<std::mutex> _locker(cpu_power_mutex);
         return CpuPowerMode(g_power_mode);
     }
 }
-- 
2.43.0


From 10d1ab0205869b26a2918936c240eae4605589ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:00 +0000
Subject: [PATCH 27/54] fix: give each channel of a quantized convolution its
 own output position

---
 src/kernels/cpu/quantized/conv2d_quantized_core.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kernels/cpu/quantized/conv2d_quantized_core.cpp b/src/kernels/cpu/quantized/conv2d_quantized_core.cpp
index 2760bae..f39eb3f 100644
--- a/src/kernels/cpu/quantized/conv2d_quantized_core.cpp
+++ b/src/kernels/cpu/quantized/conv2d_quantized_core.cpp
@@ -88,6 +88,7 @@ namespace ts {
 #endif
                 for (int c = 0; c < out_shape[1]; c++){
                     auto input_cur = input_data + n * num_offset + c * channal_offset;
+                    auto output_cur = poutput + n * num_offset + c * channal_offset;
                     float dequantize_scale = dequantize_scales[c];
                     float32x4x2 dequantize_scale_x4x2(dequantize_scale);
                     int count = channal_offset;
@@ -97,11 +98,11 @@ namespace ts {
                         int ii = i * 8;
                         float32x4x2 input_x4x2 = intx4x2_to_float32x4x2(int32x4x2(&input_cur[ii]));
                         float32x4x2 out_x4x2 = input_x4x2 * dequantize_scale_x4x2;
-                        out_x4x2.store(poutput);
-                        poutput += 8;
+                        out_x4x2.store(output_cur);
+                        output_cur += 8;
                     }
                     for (int i = remain; i < count; i++){
-                        *poutput++ = input_cur[i] * dequantize_scale;
+                        *output_cur++ = input_cur[i] * dequantize_scale;
                     }
                 }
             }
-- 
2.43.0


From e68f0585d61bafb9f15289e8e201a616e2c0ff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:00 +0000
Subject: [PATCH 28/54] fix: let threads report the cpu affinity result in
 separate bytes

---
 src/utils/cpu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/cpu.cpp b/src/utils/cpu.cpp
index aa7cb55..188bc1c 100644
--- a/src/utils/cpu.cpp
+++ b/src/utils/cpu.cpp
@@ -241,8 +241,8 @@ namespace ts{
 #ifdef TS_USE_OPENMP
         int threads_num = set_cpu_ids.size();
         omp_set_num_threads(threads_num);
-        std::vector<bool> flags;
-        flags.resize(threads_num, false);
+        std::vector<char> flags;
+        flags.resize(threads_num, 0);
         #pragma omp parallel for
         for (int i = 0; i < threads_num; i++){
             flags[i] = set_sched_affinity(set_cpu_ids);
-- 
2.43.0


From 5dabdecbf9a9dae6649f5cb83382ae7887e31f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:00 +0000
Subject: [PATCH 29/54] fix: read the loaded flag of the switcher under its
 lock

---
 src/runtime/switcher.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/switcher.cpp b/src/runtime/switcher.cpp
index a408683..7975e0f 100644
--- a/src/runtime/switcher.cpp
+++ b/src/runtime/switcher.cpp
@@ -215,6 +215,7 @@ namespace ts{
         }
 
         bool is_load_dll(){
+            std::unique_lock<std::mutex> _locker(m_switcher_mutex);
             return m_is_loaded;
         }
 
-- 
2.43.0


From e6e950b2870cef423fd055d2edf9dcf8d490c6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:41 +0000
Subject: [PATCH 30/54] fix: restore the device context when binding the
 plug-in context fails

---
 src/runtime/workbench.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index 5ebf86c..84bdc5f 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -43,7 +43,12 @@ namespace ts {
 
             auto switch_controller = bench.switch_controller();
             if(switch_controller->is_load_dll()){
-                switch_controller->bind_context();
+                try {
+                    switch_controller->bind_context();
+                } catch (...) {
+                    DeviceContext::Switch(m_pre_device_context);    // no destructor will do it
+                    throw;
+                }
             }
         }
 
-- 
2.43.0


From 12ff5f776580f1acc287e74316355d1ba16a013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:41 +0000
Subject: [PATCH 31/54] fix: drop the operands given to an online run when it
 fails

---
 src/runtime/workbench.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index 84bdc5f..b1b78ab 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -365,10 +365,16 @@ namespace ts {
     int Workbench::online_run(Operator::shared op, const std::vector<Tensor> &input) {
         // m_stack->push_base(m_stack->size()); // empty base
         // need pop_base(&Stack::pop_base, m_stack.get());
+        auto base = int(m_stack->size());
+        need drop_operands([this, base]() {
+            if (int(m_stack->size()) > base) m_stack->erase(base, int(m_stack->size()));
+        });
         for (auto &tensor : input) {
             m_stack->push(tensor);
         }
-        return online_run(op, int(stack().size()));
+        auto return_count = online_run(op, int(stack().size()));
+        drop_operands.release();    // only a failed run drops what it was given
+        return return_count;
     }
 
     int Workbench::online_run(Operator::shared op, int argc) {
@@ -386,10 +392,15 @@ namespace ts {
     void Workbench::online_run(Instruction::shared inst, const std::vector<Tensor> &input) {
         // m_stack->push_base(m_stack->size()); // empty base
         // need pop_base(&Stack::pop_base, m_stack.get());
+        auto base = int(m_stack->size());
+        need drop_operands([this, base]() {
+            if (int(m_stack->size()) > base) m_stack->erase(base, int(m_stack->size()));
+        });
         for (auto &tensor : input) {
             m_stack->push(tensor);
         }
         online_run(inst);
+        drop_operands.release();    // only a failed run drops what it was given
     }
 
     int Workbench::online_run(const Bubble &bubble, int argc, bool strict) {
-- 
2.43.0


From 164c5377ea806795c62a98504753f669591c0e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 32/54] fix: drop expired nodes when relinking a node, instead
 of looping forever

---
 include/module/graph.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/module/graph.h b/include/module/graph.h
index f9b80b1..76fb4bb 100644
--- a/include/module/graph.h
+++ b/include/module/graph.h
@@ -46,8 +46,7 @@ namespace ts {
                 auto &bottom_tops = tmp->m_outputs;
                 for (auto it = bottom_tops.begin(); it != bottom_tops.end();) {
                     auto top = it->lock();
-                    if (!top) continue;
-                    if (top == output) {
+                    if (!top || top == output) {    // drop expired nodes too
                         it = bottom_tops.erase(it);
                     } else {
                         ++it;
-- 
2.43.0


From 70ccc4992bc1f5ece1295c0fbbb7909d622c96d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 33/54] fix: let the translator work on a copy of the module it
 is given

---
 src/compiler/translater.cpp | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/compiler/translater.cpp b/src/compiler/translater.cpp
index 59488ec..92f484e 100644
--- a/src/compiler/translater.cpp
+++ b/src/compiler/translater.cpp
@@ -55,17 +55,48 @@ namespace ts {
         return translated_node;
     }
 
+    static Node clone_node(const Node &node, std::unordered_map<Node, Node> &cloned) {
+        auto it = cloned.find(node);
+        if (it != cloned.end()) return it->second;
+
+        std::vector<Node> inputs;
+        for (auto &input : node.inputs()) {
+            inputs.emplace_back(clone_node(input, cloned));
+        }
+        auto dolly = bubble::bubble(node.bubble());
+        Node::Link(dolly, inputs);
+
+        cloned.insert(std::make_pair(node, dolly));
+        return dolly;
+    }
+
+    static Module::shared clone_module(const Graph &graph, const Module::shared &module) {
+        std::unordered_map<Node, Node> cloned;
+        std::vector<Node> outputs;
+        for (auto &node : module->outputs()) {
+            outputs.emplace_back(clone_node(node, cloned));
+        }
+        std::vector<Node> inputs;
+        for (auto &node : module->inputs()) {
+            inputs.emplace_back(clone_node(node, cloned));
+        }
+        auto dolly = Module::Load(graph, outputs);
+        dolly->sort_inputs(inputs);
+        return dolly;
+    }
+
     Module::shared Translator::translate(const Module::shared& module) const {
 
         //std::cout << "+++++++++++++++++ original graph ++++++++++++++++++++++" << std::endl;
         //plot_graph(std::cout, module->outputs());
 
-        Module::shared new_module = module;
-
         Graph temp_graph;
         ctx::bind<Graph> _bind_graph(temp_graph);
         //auto temp_graph = ctx::get<Graph>();
 
+        // options change nodes and link new nodes to them, so let them work on a copy of the given module
+        Module::shared new_module = clone_module(temp_graph, module);
+
         auto options_v2 = GetFullTranslateV2Options();
         for (auto &option : options_v2) {
             new_module = option->translate(m_device, new_module);
-- 
2.43.0


From 0bed692543cd5111a9001969780bc36e5f0f47fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 34/54] fix: fold the epsilon of a half precision batch norm
 into copies, not into the constants of the module

---
 src/compiler/option/fp16_translator_option.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/compiler/option/fp16_translator_option.cpp b/src/compiler/option/fp16_translator_option.cpp
index 3f28936..783f0b9 100644
--- a/src/compiler/option/fp16_translator_option.cpp
+++ b/src/compiler/option/fp16_translator_option.cpp
@@ -116,8 +116,9 @@ ts::Fp16TranslatorOption::translate(const ts::ComputingDevice &device,
         }
         if (change_param) {
             Tensor variance = variance_node.bubble().get(name::value);
-            Tensor epsilon_fp32 = tensor::cast(FLOAT32, epsilon);
-            Tensor variance_fp32 = tensor::cast(FLOAT32, variance);
+            // copies, the memory still belongs to the given module
+            Tensor epsilon_fp32 = tensor::clone(FLOAT32, epsilon);
+            Tensor variance_fp32 = tensor::clone(FLOAT32, variance);
             auto epsilon_data = epsilon_fp32.data<float>();
             auto variance_data = variance_fp32.data<float>();
 
-- 
2.43.0


From f483aeacc7fb550bf324489d9e301724ef8ffef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 35/54] fix: normalise negative gather indices in a copy, not
 in the caller's input

---
 src/backend/base/base_gather.cpp          | 2 +-
 src/backend/base/base_gather_elements.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/base/base_gather.cpp b/src/backend/base/base_gather.cpp
index 907ae82..46a6817 100644
--- a/src/backend/base/base_gather.cpp
+++ b/src/backend/base/base_gather.cpp
@@ -54,7 +54,7 @@ namespace ts {
         int Gather::run(Stack &stack) {
             TS_AUTO_CHECK(stack.size() == 2);
 
-            auto indices =  tensor::cast(INT32, stack[1]);
+            auto indices =  tensor::clone(INT32, stack[1]);
             auto output_proto = infer_gather(stack[0], indices, m_axis);
 
             auto memory_device = running_memory_device();
diff --git a/src/backend/base/base_gather_elements.cpp b/src/backend/base/base_gather_elements.cpp
index 1dc0c3b..4fb9fba 100644
--- a/src/backend/base/base_gather_elements.cpp
+++ b/src/backend/base/base_gather_elements.cpp
@@ -42,7 +42,7 @@ namespace ts {
         int GatherElements::run(Stack &stack) {
             TS_AUTO_CHECK(stack.size() == 2);
 
-            auto indices =  tensor::cast(INT32, stack[1]);
+            auto indices =  tensor::clone(INT32, stack[1]);
             auto output_proto = infer_gather(stack[0], indices, m_axis);
 
             auto memory_device = running_memory_device();
-- 
2.43.0


From d4fdaab6a389cf45214a5956a71442772e2247a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:42 +0000
Subject: [PATCH 36/54] fix: report an operator of an unknown device as missing
 instead of terminating the process

---
 src/global/fp16_operator_factory.cpp | 8 ++++++--
 src/global/operator_factory.cpp      | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/global/fp16_operator_factory.cpp b/src/global/fp16_operator_factory.cpp
index ada4e79..4389277 100644
--- a/src/global/fp16_operator_factory.cpp
+++ b/src/global/fp16_operator_factory.cpp
@@ -49,8 +49,12 @@ namespace ts {
 
         if (creator == nullptr) {
             // step 2.x: try find operator on memory device, if computing device failed
-            auto memory_device = ComputingMemory::Query(device_type);
-            creator = Fp16OperatorCreator::Query(memory_device, operator_name);
+            try {
+                auto memory_device = ComputingMemory::Query(device_type);
+                creator = Fp16OperatorCreator::Query(memory_device, operator_name);
+            } catch (const NoMemoryDeviceException &) {
+                // no memory device, so there is no such operator on it
+            }
         }
 
         if (creator == nullptr) {
diff --git a/src/global/operator_factory.cpp b/src/global/operator_factory.cpp
index 99ce607..450833d 100644
--- a/src/global/operator_factory.cpp
+++ b/src/global/operator_factory.cpp
@@ -66,8 +66,12 @@ namespace ts {
 
         if (creator == nullptr) {
             // step 2.x: try find operator on memory device, if computing device failed
-            auto memory_device = ComputingMemory::Query(device_type);
-            creator = OperatorCreator::Query(memory_device, operator_name);
+            try {
+                auto memory_device = ComputingMemory::Query(device_type);
+                creator = OperatorCreator::Query(memory_device, operator_name);
+            } catch (const NoMemoryDeviceException &) {
+                // no memory device, so there is no such operator on it
+            }
         }
 
         if (creator == nullptr) {
-- 
2.43.0


From a6232c0bdbb876b467c06222186fb95018baff6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:42 +0000
Subject: [PATCH 37/54] fix: a failing write of the last encrypted block no
 longer throws out of a destructor

---
 src/encryption/aes_fstream.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/encryption/aes_fstream.cpp b/src/encryption/aes_fstream.cpp
index f8832b4..c72ffb5 100644
--- a/src/encryption/aes_fstream.cpp
+++ b/src/encryption/aes_fstream.cpp
@@ -168,7 +168,11 @@ namespace ts {
     }
 
     AESFileStreamWriter::~AESFileStreamWriter() {
-         close();
+        try {
+            close();
+        } catch (const Exception &) {
+            // already logged, destructor must not throw
+        }
     }
 
     void AESFileStreamWriter::close() {
-- 
2.43.0


From 97a45ddb06f2150c89e4b112a8ac91968a09d43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 38/54] fix: raise an error for a wrong operand count instead
 of ending the process

---
 src/backend/base/base_proposal.cpp   | 4 ++--
 src/backend/base/base_roi_align.cpp  | 8 ++++----
 src/kernels/cpu/ceil.cpp             | 4 ++--
 src/kernels/cpu/detection_output.cpp | 4 ++--
 src/kernels/cpu/floor.cpp            | 4 ++--
 src/kernels/cpu/prior_box.cpp        | 6 +++---
 6 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/backend/base/base_proposal.cpp b/src/backend/base/base_proposal.cpp
index 2720765..af1c7c7 100644
--- a/src/backend/base/base_proposal.cpp
+++ b/src/backend/base/base_proposal.cpp
@@ -38,7 +38,7 @@ namespace ts {
         }
 
         int Proposal::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
-            TS_AUTO_ASSERT(stack.size() >= 3);
+            TS_AUTO_CHECK(stack.size() >= 3);
 
             auto num_images = stack[0].size(0);
 
@@ -53,7 +53,7 @@ namespace ts {
         }
 
         int Proposal::run(Stack &stack) {
-            TS_AUTO_ASSERT(stack.size() >= 3);
+            TS_AUTO_CHECK(stack.size() >= 3);
             
             auto memory_device = this->running_memory_device();
 
diff --git a/src/backend/base/base_roi_align.cpp b/src/backend/base/base_roi_align.cpp
index 8048b96..282c2e9 100644
--- a/src/backend/base/base_roi_align.cpp
+++ b/src/backend/base/base_roi_align.cpp
@@ -24,8 +24,8 @@ namespace ts {
         }
 
         int ROIAlign::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
-            TS_AUTO_ASSERT(stack.size() == 2);
-            TS_AUTO_ASSERT(stack[0].dtype() == stack[1].dtype());
+            TS_AUTO_CHECK(stack.size() == 2);
+            TS_AUTO_CHECK(stack[0].dtype() == stack[1].dtype());
 
             output.resize(1);
             output[0] = Tensor::Prototype(stack[0].dtype(), {stack[1].size(0), stack[0].size(1), m_pool_h, m_pool_w});
@@ -34,8 +34,8 @@ namespace ts {
         }
 
         int ROIAlign::run(Stack &stack) {
-            TS_AUTO_ASSERT(stack.size() == 2);
-            TS_AUTO_ASSERT(stack[0].dtype() == stack[1].dtype());
+            TS_AUTO_CHECK(stack.size() == 2);
+            TS_AUTO_CHECK(stack[0].dtype() == stack[1].dtype());
 
             auto memory_device = this->running_memory_device();
 
diff --git a/src/kernels/cpu/ceil.cpp b/src/kernels/cpu/ceil.cpp
index 3b8112d..bf3889a 100644
--- a/src/kernels/cpu/ceil.cpp
+++ b/src/kernels/cpu/ceil.cpp
@@ -42,7 +42,7 @@ namespace ts {
             void init() final {}
 
             int run(Stack &stack) final {
-                TS_AUTO_ASSERT(stack.size() == 1);
+                TS_AUTO_CHECK(stack.size() == 1);
                 auto &x = stack[0];
 
                 DTYPE dtype = x.dtype();
@@ -70,7 +70,7 @@ namespace ts {
             }
 
             int infer(Stack &stack, std::vector<Tensor::Prototype> &output) final {
-                TS_AUTO_ASSERT(stack.size() == 1);
+                TS_AUTO_CHECK(stack.size() == 1);
                 auto &x = stack[0];
 
                 output.resize(1);
diff --git a/src/kernels/cpu/detection_output.cpp b/src/kernels/cpu/detection_output.cpp
index 7cd6fd2..2e01946 100644
--- a/src/kernels/cpu/detection_output.cpp
+++ b/src/kernels/cpu/detection_output.cpp
@@ -121,7 +121,7 @@ namespace ts {
             }
 
             int infer(Stack &stack, std::vector<Tensor::Prototype> &output) final {
-                TS_AUTO_ASSERT(stack.size() >= 3 && stack.size() <= 4);
+                TS_AUTO_CHECK(stack.size() >= 3 && stack.size() <= 4);
 
                 output.resize(1);
                 output[0] = Tensor::Prototype(stack[0].dtype(), infer_top_shape(stack, false));
@@ -135,7 +135,7 @@ namespace ts {
             }
 
             int run(Stack &stack) final {
-                TS_AUTO_ASSERT(stack.size() >= 3 && stack.size() <= 4);
+                TS_AUTO_CHECK(stack.size() >= 3 && stack.size() <= 4);
                 using Dtype = float;
                 auto loc = tensor::cast(FLOAT32,  stack[0]);
                 auto conf = tensor::cast(FLOAT32,  stack[1]);
diff --git a/src/kernels/cpu/floor.cpp b/src/kernels/cpu/floor.cpp
index 8b38194..c57bd02 100644
--- a/src/kernels/cpu/floor.cpp
+++ b/src/kernels/cpu/floor.cpp
@@ -42,7 +42,7 @@ namespace ts {
             void init() final {}
 
             int run(Stack &stack) final {
-                TS_AUTO_ASSERT(stack.size() == 1);
+                TS_AUTO_CHECK(stack.size() == 1);
                 auto &x = stack[0];
 
                 DTYPE dtype = x.dtype();
@@ -70,7 +70,7 @@ namespace ts {
             }
 
             int infer(Stack &stack, std::vector<Tensor::Prototype> &output) final {
-                TS_AUTO_ASSERT(stack.size() == 1);
+                TS_AUTO_CHECK(stack.size() == 1);
                 auto &x = stack[0];
 
                 output.resize(1);
diff --git a/src/kernels/cpu/prior_box.cpp b/src/kernels/cpu/prior_box.cpp
index 50c512b..dd0ffb0 100644
--- a/src/kernels/cpu/prior_box.cpp
+++ b/src/kernels/cpu/prior_box.cpp
@@ -45,7 +45,7 @@ namespace ts {
 
             void init() final {
                 min_sizes_ = tensor::array::to_float(get("min_size"));
-                TS_AUTO_ASSERT(!min_sizes_.empty());
+                TS_AUTO_CHECK(!min_sizes_.empty());
                 for (auto &size : min_sizes_) {
                     TS_CHECK_GT(size, 0) << "min_size must be positive." << eject;
                 }
@@ -150,7 +150,7 @@ namespace ts {
             }
 
             int infer(Stack &stack, std::vector<Tensor::Prototype> &output) final {
-                TS_AUTO_ASSERT(stack.size() >= 1);
+                TS_AUTO_CHECK(stack.size() >= 1);
 
                 output.resize(1);
                 output[0] = Tensor::Prototype(FLOAT32, infer_top_shape(stack[0]));
@@ -173,7 +173,7 @@ namespace ts {
                 const int layer_height = feat.size(2);
                 int img_width, img_height;
                 if (img_h_ == 0 || img_w_ == 0) {
-                    TS_AUTO_ASSERT(nargs > 1);
+                    TS_AUTO_CHECK(nargs > 1);
                     auto &img = stack[1];
                     img_width = img.size(3);
                     img_height = img.size(2);
-- 
2.43.0


From af17bd05f8b286d2ffd3afc3a32d9a91d7315d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:24 +0000
Subject: [PATCH 39/54] fix: a short read or write of a model stream is an
 error

---
 include/module/io/stream.h | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/module/io/stream.h b/include/module/io/stream.h
index 0c06b83..5900258 100644
--- a/include/module/io/stream.h
+++ b/include/module/io/stream.h
@@ -10,6 +10,7 @@
 #include <string>
 
 #include <utils/api.h>
+#include <utils/assert.h>
 
 
 namespace ts {
@@ -40,34 +41,46 @@ namespace ts {
     };
 
     namespace binio {
+        inline size_t read_exactly(StreamReader &stream, void *buffer, size_t size) {
+            auto read_size = stream.read(buffer, size);
+            TS_CHECK(read_size == size) << "Stream ended early, expect " << size << " bytes, got " << read_size << eject;
+            return read_size;
+        }
+
+        inline size_t write_exactly(StreamWriter &stream, const void *buffer, size_t size) {
+            auto writen_size = stream.write(buffer, size);
+            TS_CHECK(writen_size == size) << "Can not write " << size << " bytes, only " << writen_size << " were taken" << eject;
+            return writen_size;
+        }
+
         template<typename T>
         size_t read(StreamReader &stream, T &buffer) {
-            return stream.read(&buffer, sizeof(T));
+            return read_exactly(stream, &buffer, sizeof(T));
         }
 
         template<typename T>
         size_t read(StreamReader &stream, T *buffer, size_t size) {
-            return stream.read(buffer, sizeof(T) * size);
+            return read_exactly(stream, buffer, sizeof(T) * size);
         }
 
         template<typename T, size_t _Size>
         size_t read(StreamReader &stream, T (&buffer)[_Size]) {
-            return stream.read(buffer, sizeof(T) * _Size);
+            return read_exactly(stream, buffer, sizeof(T) * _Size);
         }
 
         template<typename T>
         size_t write(StreamWriter &stream, const T &buffer) {
-            return stream.write(&buffer, sizeof(T));
+            return write_exactly(stream, &buffer, sizeof(T));
         }
 
         template<typename T>
         size_t write(StreamWriter &stream, const T *buffer, size_t size) {
-            return stream.write(buffer, sizeof(T) * size);
+            return write_exactly(stream, buffer, sizeof(T) * size);
         }
 
         template<typename T, size_t _Size>
         size_t write(StreamWriter &stream, const T (&buffer)[_Size]) {
-            return stream.write(buffer, sizeof(T) * _Size);
+            return write_exactly(stream, buffer, sizeof(T) * _Size);
         }
     }
 }
-- 
2.43.0


From f417729830aa3b75a050a2e31ecd95e7a49204cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:29 +0000
Subject: [PATCH 40/54] fix: element type and dimensions of a loaded tensor are
 checked

---
 src/core/tensor.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 925c014..2614280 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -11,6 +11,7 @@
 #include "utils/assert.h"
 
 #include <numeric>
+#include <climits>
 #include <mutex>
 
 #include <core/device_context.h>
@@ -346,14 +347,18 @@ namespace ts {
         uint8_t dtype_buffer;
         read_size += binio::read<uint8_t >(stream, dtype_buffer);
         dtype = DTYPE(dtype_buffer);
-        TS_AUTO_CHECK(dtype >= 0);
+        TS_CHECK(dtype == VOID || type_bytes(dtype) > 0) << "Unknown dtype code: " << int(dtype_buffer) << eject;
         // 1.2 read sizes
         uint32_t size_buffer;
         read_size += binio::read<uint32_t>(stream, size_buffer);
         shape.resize(size_buffer);
+        uint64_t element_count = 1;
         for (size_t i = 0; i < shape.size(); ++i) {
             read_size += binio::read<uint32_t>(stream, size_buffer);
-            shape[i] = size_buffer;
+            TS_CHECK(size_buffer <= uint32_t(INT_MAX)) << "Dimension out of range: " << size_buffer << eject;
+            element_count *= size_buffer;
+            TS_CHECK(element_count <= uint64_t(INT_MAX)) << "Too many elements in tensor: " << element_count << eject;
+            shape[i] = int(size_buffer);
         }
         // 1.x set proto
         proto = Tensor::Prototype(dtype, shape);
-- 
2.43.0


From d2d4116623b66fb86bfe6b17bf70bb90790b2a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:46 +0000
Subject: [PATCH 41/54] fix: node indices of a loaded module are checked
 against the nodes of its graph

---
 src/module/loaders/open.cpp | 10 ++++++++--
 src/module/menu.cpp         |  1 +
 src/module/module.cpp       | 10 ++++++++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/module/loaders/open.cpp b/src/module/loaders/open.cpp
index d34443e..811118e 100644
--- a/src/module/loaders/open.cpp
+++ b/src/module/loaders/open.cpp
@@ -30,9 +30,15 @@ Module::shared open_loader(StreamReaderV2 &stream, const void *buffer, int32_t b
     const auto &nodes = g.nodes();  // TODO: Check if the read nodes is the given nodes
     // x.1 convert inputs and outputs
     std::vector<Node> inputs;
-    for (auto index : input_index) inputs.emplace_back(nodes[index]);
+    for (auto index : input_index) {
+        TS_CHECK(index < nodes.size()) << "Input node index out of range: " << index << eject;
+        inputs.emplace_back(nodes[index]);
+    }
     std::vector<Node> outputs;
-    for (auto index : output_index) outputs.emplace_back(nodes[index]);
+    for (auto index : output_index) {
+        TS_CHECK(index < nodes.size()) << "Output node index out of range: " << index << eject;
+        outputs.emplace_back(nodes[index]);
+    }
     Module::shared module = std::make_shared<Module>();
     module->load(g, outputs);
     module->sort_inputs(inputs);
diff --git a/src/module/menu.cpp b/src/module/menu.cpp
index 4519f22..2979ff1 100644
--- a/src/module/menu.cpp
+++ b/src/module/menu.cpp
@@ -145,6 +145,7 @@ namespace ts {
         for (auto &node : nodes) {
             std::vector<Node> inputs;
             for (auto index : node.second) {
+                TS_CHECK(index < nodes.size()) << "Node index out of range: " << index << eject;
                 inputs.emplace_back(nodes[index].first);
             }
             Node::Link(node.first, inputs);
diff --git a/src/module/module.cpp b/src/module/module.cpp
index 6144a08..d6cd3a0 100644
--- a/src/module/module.cpp
+++ b/src/module/module.cpp
@@ -316,9 +316,15 @@ namespace ts {
         const auto &nodes = g.nodes();  // TODO: Check if the read nodes is the given nodes
         // x.1 convert inputs and outputs
         std::vector<Node> inputs;
-        for (auto index : input_index) inputs.emplace_back(nodes[index]);
+        for (auto index : input_index) {
+            TS_CHECK(index < nodes.size()) << "Input node index out of range: " << index << eject;
+            inputs.emplace_back(nodes[index]);
+        }
         std::vector<Node> outputs;
-        for (auto index : output_index) outputs.emplace_back(nodes[index]);
+        for (auto index : output_index) {
+            TS_CHECK(index < nodes.size()) << "Output node index out of range: " << index << eject;
+            outputs.emplace_back(nodes[index]);
+        }
         Module::shared module = std::make_shared<Module>();
         module->load(g, outputs);
         module->sort_inputs(inputs);
-- 
2.43.0


From ce1c0636faab564c9e625aa2bd7c3a246e221ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:05 +0000
Subject: [PATCH 42/54] fix: padding of the last encrypted block is checked
 before it is used as a length

---
 src/encryption/aes_fstream.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/encryption/aes_fstream.cpp b/src/encryption/aes_fstream.cpp
index c72ffb5..5d589d6 100644
--- a/src/encryption/aes_fstream.cpp
+++ b/src/encryption/aes_fstream.cpp
@@ -82,7 +82,13 @@ namespace ts {
             }
  
             if(iseof) {
-                m_master_datalen -= (int)(m_master[AES_BLOCKLEN - 1]); 
+                const int padding = (int)(m_master[AES_BLOCKLEN - 1]);
+                if(padding < 1 || padding > AES_BLOCKLEN) {
+                    m_master_datalen = 0;
+                    TS_LOG_ERROR << "mode file padding is error, wrong key or damaged file!" << eject;
+                    return 0;
+                }
+                m_master_datalen -= padding;
             } 
 
             
-- 
2.43.0


From 86097f8c5958adfa42b7670a6c99cf063f92108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:28 +0000
Subject: [PATCH 43/54] fix: dimension index and slice bounds of a tensor are
 checked

---
 include/core/tensor.h | 7 ++++++-
 src/core/tensor.cpp   | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/core/tensor.h b/include/core/tensor.h
index 2f875b0..9ebc249 100644
--- a/include/core/tensor.h
+++ b/include/core/tensor.h
@@ -61,7 +61,12 @@ namespace ts {
 
             const Shape &sizes() const { return m_sizes; }
 
-            int size(size_t i) const { return m_sizes[i]; }
+            int size(size_t i) const {
+                if (i >= m_sizes.size()) {
+                    TS_LOG_ERROR << "Dimension index out of range: " << i << " vs. " << m_sizes.size() << " dims" << eject;
+                }
+                return m_sizes[i];
+            }
 
             int type_bytes() const { return ts::type_bytes(m_dtype); }
 
diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 2614280..5201c7a 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -638,8 +638,9 @@ namespace ts {
     }
 
     Tensor Tensor::slice(int beg, int end) {
-        TS_AUTO_CHECK(beg < end);
         auto &sizes = this->sizes();
+        TS_AUTO_CHECK(!sizes.empty());
+        TS_AUTO_CHECK(0 <= beg && beg < end && end <= sizes[0]);
         auto width = std::accumulate(sizes.begin() + 1, sizes.end(), 1, std::multiplies<int>());
         width *= this->proto().type_bytes();
 
-- 
2.43.0


From 7095619e2476c5e5e7b12cd94f41864cc9899c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:28 +0000
Subject: [PATCH 44/54] fix: node, module and program accessors and workbench
 jumps check what they are given

---
 include/module/graph.h    | 4 ++--
 include/module/module.h   | 8 ++++----
 src/runtime/program.cpp   | 2 +-
 src/runtime/workbench.cpp | 2 ++
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/module/graph.h b/include/module/graph.h
index 76fb4bb..19b48a5 100644
--- a/include/module/graph.h
+++ b/include/module/graph.h
@@ -148,9 +148,9 @@ namespace ts {
             return std::move(out_vector);
         }
 
-        Node input(int i) const { return inputs()[i]; }
+        Node input(int i) const { return input(size_t(i)); }
 
-        Node input(size_t i) const { return inputs()[i]; }
+        Node input(size_t i) const { return inputs().at(i); }
 
         void *ptr() const { return m_ptr.lock().get(); }
 
diff --git a/include/module/module.h b/include/module/module.h
index 65964be..0667425 100644
--- a/include/module/module.h
+++ b/include/module/module.h
@@ -27,13 +27,13 @@ namespace ts {
 
         const std::vector<Node> &outputs() const { return m_outputs; }
 
-        const Node &input(int i) const { return m_inputs[i]; }
+        const Node &input(int i) const { return m_inputs.at(size_t(i)); }
 
-        const Node &output(int i) const { return m_outputs[i]; }
+        const Node &output(int i) const { return m_outputs.at(size_t(i)); }
 
-        const Node &input(size_t i) const { return m_inputs[i]; }
+        const Node &input(size_t i) const { return m_inputs.at(size_t(i)); }
 
-        const Node &output(size_t i) const { return m_outputs[i]; }
+        const Node &output(size_t i) const { return m_outputs.at(size_t(i)); }
 
         void clear();
 
diff --git a/src/runtime/program.cpp b/src/runtime/program.cpp
index cb716f0..a1e3964 100644
--- a/src/runtime/program.cpp
+++ b/src/runtime/program.cpp
@@ -240,7 +240,7 @@ namespace ts {
     }
 
     const Instruction::shared &Program::instruction(size_t pointer) const {
-        return m_program[pointer];
+        return m_program.at(pointer);
     }
 
     const std::vector<Instruction::shared> &Program::instruction() const {
diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index b1b78ab..ff78b41 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -190,10 +190,12 @@ namespace ts {
     }
 
     void Workbench::jump_relative(int shift) {
+        TS_AUTO_CHECK(!this->m_env.empty());
         this->m_env.top().pointer += shift;
     }
 
     void Workbench::jump_absolute(size_t pointer) {
+        TS_AUTO_CHECK(!this->m_env.empty());
         this->m_env.top().pointer = pointer;
     }
 
-- 
2.43.0


From c1a8fc0d2d8a938dc5f0116f62b69cda88cdabd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:19 +0000
Subject: [PATCH 45/54] fix: tensor slice and data segment push check what they
 index

---
 src/core/tensor.cpp       | 2 ++
 src/runtime/workbench.cpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 5201c7a..7315310 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -630,6 +630,8 @@ namespace ts {
 
     Tensor Tensor::slice(int i) {
         auto &sizes = this->sizes();
+        TS_AUTO_CHECK(!sizes.empty());
+        TS_AUTO_CHECK(0 <= i && i < sizes[0]);
         auto width = std::accumulate(sizes.begin() + 1, sizes.end(), 1, std::multiplies<int>());
         width *= this->proto().type_bytes();
         Shape slice_shape(sizes.begin() + 1, sizes.end());
diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index ff78b41..20bd23c 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -276,6 +276,7 @@ namespace ts {
 
     void Workbench::push_data_segment(int data_index) {
         // TODO: deal with data_sagment, in case of thread sharing, waitting testing
+        TS_AUTO_CHECK(!this->m_env.empty());
         this->m_stack->push(this->m_env.top().program->data_segment(data_index));
     }
 
-- 
2.43.0


From 12371bbe65acd088aa2eb191372b28fb887eeded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:28 +0000
Subject: [PATCH 46/54] fix: a shape never grows beyond its fixed capacity

---
 include/utils/otl.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/utils/otl.h b/include/utils/otl.h
index cef9c49..7e21500 100644
--- a/include/utils/otl.h
+++ b/include/utils/otl.h
@@ -279,15 +279,15 @@ namespace ts {
 
             // fill
             explicit vector (size_type n)
-                : m_size(S(n)) {}
+                : m_size(S(_fits(n))) {}
 
             vector(size_type n, const value_type& val)
-                : m_size(S(n)) {
+                : m_size(S(_fits(n))) {
                 for (auto &slot : *this) slot = val;
             }
 
             vector(int n, const value_type& val)
-                    : m_size(S(n)) {
+                    : m_size(S(_fits(size_type(n)))) {
                 for (auto &slot : *this) slot = val;
             }
 
@@ -296,7 +296,7 @@ namespace ts {
             vector(InputIterator first, InputIterator last) {
                 size_type n = 0;
                 for (auto it = first; it != last; ++it) {
-                    if (n > CAPACITY) {
+                    if (n >= CAPACITY) {
                         TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(n)) << eject;
                     }
                     m_buf[n] = *it;
@@ -395,6 +395,7 @@ namespace ts {
             }
 
             void push_back(const T &val) {
+                _fits(this->size() + 1);
                 m_buf[m_size] = val;
                 ++m_size;
             }
@@ -405,6 +406,7 @@ namespace ts {
 
             template <typename ...Args>
             void emplace_back(Args &&...args) {
+                _fits(this->size() + 1);
                 new(m_buf + m_size) T(std::forward<Args>(args)...);
                 ++m_size;
             }
@@ -416,19 +418,27 @@ namespace ts {
             void reserve(size_type n) {}
 
         private:
+            static size_type _fits(size_type n) {
+                if (n > CAPACITY) {
+                    TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(n)) << eject;
+                }
+                return n;
+            }
+
             size_type _pointer2index(const T*ptr) const {
                 return ptr < m_buf ? 0 : ptr - m_buf;
             }
 
             void _erase(size_type i, size_type len) {
                 auto size = this->size();
+                if (i >= size) return;
                 if (len + i > size) len = size - i;
                 std::memmove(m_buf + i, m_buf + i + len, sizeof(T) * (this->size() - i - len));
                 m_size -= S(len);
             }
 
             void _insert(size_type i, const T&val) {
-                if (i + 1 > this->capacity()) {
+                if (this->size() + 1 > this->capacity()) {
                     TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(N)) << eject;
                 }
                 std::memmove(m_buf + i + 1, m_buf + i, sizeof(T) * (this->size() - i));
@@ -438,7 +448,7 @@ namespace ts {
 
             template <size_t _N, typename _S>
             void _insert(size_type i, const vector<T, _N, _S> &vec) {
-                if (i + vec.size() > this->capacity()) {
+                if (this->size() + vec.size() > this->capacity()) {
                     TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(N)) << eject;
                 }
                 std::memmove(m_buf + i + vec.size(), m_buf + i, sizeof(T) * (this->size() - i));
-- 
2.43.0


From ed78d8b10e0e0079322610e97c8ef049f68682db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:09 +0000
Subject: [PATCH 47/54] fix: Conv2DWinograd read an indeterminate
 kernel-transformed flag

---
 include/backend/base/base_conv2d_winograd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/backend/base/base_conv2d_winograd.h b/include/backend/base/base_conv2d_winograd.h
index 30f9ddb..5555eb6 100644
--- a/include/backend/base/base_conv2d_winograd.h
+++ b/include/backend/base/base_conv2d_winograd.h
@@ -29,11 +29,11 @@ namespace ts{
 //                const Tensor &w, Conv2DFormat format, Tensor &out, Stack &stack) = 0;
 
         private:
-            WinogradConv2DMode m_winograd_mode;
+            WinogradConv2DMode m_winograd_mode = F2X2_3X3;
             Conv2DFormat m_format;
             std::valarray<int> m_padding4x2;
             float m_padding_value;
-            bool m_kernel_transformed;
+            bool m_kernel_transformed = false;
             Tensor m_k_transformed;
         };
     }
-- 
2.43.0


From 6ab035594c803c5f61c24c73ab1d39af9a1efc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:53 +0000
Subject: [PATCH 48/54] fix: moving a Counter left two owners of the object

---
 include/core/threadsafe/smart.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/core/threadsafe/smart.h b/include/core/threadsafe/smart.h
index b02c73a..d7ba371 100644
--- a/include/core/threadsafe/smart.h
+++ b/include/core/threadsafe/smart.h
@@ -50,10 +50,9 @@ namespace ts {
         }
 
         Counter &operator==(self &&other) TS_NOEXCEPT {
-#define MOVE_MEMBER(member) this->member = std::move(other.member)
-            MOVE_MEMBER(object);
-            this->use_count = other.use_count.load();
-#undef MOVE_MEMBER
+            std::swap(this->object, other.object);
+            std::swap(this->deleter, other.deleter);
+            this->use_count = other.use_count.exchange(this->use_count.load());
             return *this;
         }
 
-- 
2.43.0


From 975a79bbfc77db263b5e3ee85ac9ae29ef1acc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:53 +0000
Subject: [PATCH 49/54] fix: Smart::dispose gave up its share more than once

---
 include/core/threadsafe/smart.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/core/threadsafe/smart.h b/include/core/threadsafe/smart.h
index d7ba371..321b975 100644
--- a/include/core/threadsafe/smart.h
+++ b/include/core/threadsafe/smart.h
@@ -114,8 +114,8 @@ namespace ts {
             if (m_counted && m_mode == SMART) {
                 if (--m_counted->use_count <= 0) {
                     delete m_counted;
-                    m_counted = nullptr;
                 }
+                m_counted = nullptr;
             }
         }
 
-- 
2.43.0


From 61515ff2ed8e4c64628448e83db968e582ada1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:53 +0000
Subject: [PATCH 50/54] fix: update_iteration read the iteration it had deleted

---
 include/core/scan.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/core/scan.h b/include/core/scan.h
index 4fb802c..06d6500 100644
--- a/include/core/scan.h
+++ b/include/core/scan.h
@@ -162,7 +162,10 @@ namespace ts {
                     ++iter;
                 }
             }
-            if (times == 0) delete_iteration(iteration);
+            if (times == 0) {
+                delete_iteration(iteration);
+                return 0;
+            }
             return iteration->times * times;
         }
         return iteration->times;
-- 
2.43.0


From baab860cdebbff0b596cb07fb09723c9daba9f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:53 +0000
Subject: [PATCH 51/54] fix: StackMemoryList::free went on with the block it
 had deleted

---
 src/memory/flow.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/memory/flow.cpp b/src/memory/flow.cpp
index 7fdc47c..3f880be 100644
--- a/src/memory/flow.cpp
+++ b/src/memory/flow.cpp
@@ -131,6 +131,7 @@ namespace ts {
                 block->next->prev = block->prev;
                 block->prev->next = block->next;
                 delete block;
+                break;
             }
         }
 
-- 
2.43.0


From c964d21e90159822af5c75cceae8ee3c3a44bbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:53 +0000
Subject: [PATCH 52/54] fix: HardMemory::dispose kept the capacity of the
 released block

---
 src/core/hard_memory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/hard_memory.cpp b/src/core/hard_memory.cpp
index ae3b053..a46d209 100644
--- a/src/core/hard_memory.cpp
+++ b/src/core/hard_memory.cpp
@@ -43,6 +43,7 @@ namespace ts {
     void HardMemory::dispose() {
         if (m_allocator) m_allocator(m_device.id(), 0, m_data, 0);
         m_data = nullptr;
+        m_capacity = 0;
     }
 
     void HardMemory::expect(size_t size) {
-- 
2.43.0


From a22e6f4b5c0d76882a998266e207385bf2186e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:53 +0000
Subject: [PATCH 53/54] fix: HardMemory::resize kept the released block when
 the allocation failed

---
 src/core/hard_memory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/hard_memory.cpp b/src/core/hard_memory.cpp
index a46d209..73856d4 100644
--- a/src/core/hard_memory.cpp
+++ b/src/core/hard_memory.cpp
@@ -65,7 +65,8 @@ namespace ts {
     void HardMemory::resize(size_t size) {
         if (!m_allocator) TS_LOG_ERROR("Borrowed memory can not be resized.") << eject;
         if (size != m_capacity) {
-            m_data = m_allocator(m_device.id(), size, m_data, 0);
+            this->dispose();
+            m_data = m_allocator(m_device.id(), size, nullptr, 0);
             m_capacity = size;
         }
     }
-- 
2.43.0


From 6adc13bb885bc7d8a76d038d2b71b415416f2259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:23 +0000
Subject: [PATCH 54/54] fix: intime::memcpy copied beyond the tensor it was
 given

---
 src/frontend/intime.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/frontend/intime.cpp b/src/frontend/intime.cpp
index c739683..e7352b4 100644
--- a/src/frontend/intime.cpp
+++ b/src/frontend/intime.cpp
@@ -171,8 +171,22 @@ namespace ts {
                 Tensor &dst_desc, void *dst_data, int64_t dst_shift,
                 const Tensor &src_desc, const void *src_data, int64_t src_shift,
                 int64_t size) {
-            if (dst_data == nullptr) dst_data = dst_desc.data();
-            if (src_data == nullptr) src_data = src_desc.data();
+            if (dst_data == nullptr) {
+                auto bytes = int64_t(dst_desc.count()) * dst_desc.proto().type_bytes();
+                if (dst_shift < 0 || size < 0 || dst_shift > bytes - size) {
+                    TS_LOG_ERROR << "Can not copy " << size << " bytes to offset " << dst_shift
+                                 << " of tensor with " << bytes << " bytes." << eject;
+                }
+                dst_data = dst_desc.data();
+            }
+            if (src_data == nullptr) {
+                auto bytes = int64_t(src_desc.count()) * src_desc.proto().type_bytes();
+                if (src_shift < 0 || size < 0 || src_shift > bytes - size) {
+                    TS_LOG_ERROR << "Can not copy " << size << " bytes from offset " << src_shift
+                                 << " of tensor with " << bytes << " bytes." << eject;
+                }
+                src_data = src_desc.data();
+            }
             auto copied = memcpy(reinterpret_cast<char *>(dst_data) + dst_shift, dst_desc.device(), size_t(size),
                                  reinterpret_cast<const char *>(src_data) + src_shift, src_desc.device(), size_t(size));
             return int64_t(copied);
-- 
2.43.0

