From d9bca8d5ae91eceac494c6b2bf8ccdf975b91804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 01/38] fix: trap typed tensor data access whose element type
 differs from the tensor's dtype

---
 src/Tensor/DType.h      |  9 +++++++++
 src/Tensor/TensorImpl.h | 10 ++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/Tensor/DType.h b/src/Tensor/DType.h
index 2c1feaf..0bd3eb0 100644
--- a/src/Tensor/DType.h
+++ b/src/Tensor/DType.h
@@ -135,6 +135,15 @@ struct TypeToDType<uint8_t> {
 template <typename T>
 constexpr DType TypeToDType_v = TypeToDType<T>::value;
 
+template <typename T, typename = void>
+struct HasDType : std::false_type {};
+
+template <typename T>
+struct HasDType<T, std::void_t<decltype(TypeToDType<T>::value)>> : std::true_type {};
+
+template <typename T>
+constexpr bool HasDType_v = HasDType<T>::value;
+
 template <typename T>
 void CheckDTypeMatch(DType dtype) {
   if (dtype == DType::Float32) {
diff --git a/src/Tensor/TensorImpl.h b/src/Tensor/TensorImpl.h
index f0f7982..8075cda 100644
--- a/src/Tensor/TensorImpl.h
+++ b/src/Tensor/TensorImpl.h
@@ -44,12 +44,14 @@ class TensorImpl {
 
   template <typename T = void>
   T* dataPtr() {
+    checkDataType<T>();
     ensureStorage();
     return static_cast<T*>(dataPtr_);
   }
 
   template <typename T = void>
   const T* dataPtr() const {
+    checkDataType<T>();
     ensureStorage();
     return static_cast<T*>(dataPtr_);
   }
@@ -81,6 +83,14 @@ class TensorImpl {
   T item() const;
 
  private:
+  // typed access must match the stored element type (device-specific types without a DType are not checked)
+  template <typename T>
+  void checkDataType() const {
+    if constexpr (HasDType_v<T>) {
+      ASSERT(options_.dtype_ == TypeToDType_v<T>);
+    }
+  }
+
   void ensureStorage() const;
   static void computeStrides(SizeVector& strides, IntArrayView shape);
   static void computeNumel(int64_t& numel, IntArrayView shape);
-- 
2.43.0


From d5d30550419fa80cec00af26d703243e0685b9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:03 +0000
Subject: [PATCH 02/38] fix: copy shared storage before writing results into a
 caller's tensor (unary out ops, softmaxOut, dtypeCast, indexPut,
 Serializer::load)

---
 src/Operation/OpElemWiseCpu.h    | 1 +
 src/Operation/OpNNLayerCpu.h     | 1 +
 src/Operation/OpTransformCpu.cpp | 1 +
 src/Operation/OpTransformCpu.h   | 1 +
 src/Serializer.cpp               | 1 +
 5 files changed, 5 insertions(+)

diff --git a/src/Operation/OpElemWiseCpu.h b/src/Operation/OpElemWiseCpu.h
index b2b1348..766f277 100644
--- a/src/Operation/OpElemWiseCpu.h
+++ b/src/Operation/OpElemWiseCpu.h
@@ -307,6 +307,7 @@ Tensor unaryOpCpuImpl(const Tensor& self) {
 template <typename T, typename OP>
 void unaryOpOutCpuImpl(Tensor& out, const Tensor& self) {
   ASSERT(self.shape() == out.shape());
+  out.copyOnWrite();
   T* outPtr = out.dataPtr<T>();
   const T* selfPtr = self.dataPtr<T>();
   for (int64_t i = 0; i < self.numel(); i++) {
diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 4a771e1..8fcbdc7 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -18,6 +18,7 @@ void softmaxForwardCpuImpl(Tensor& out, const Tensor& self, int64_t dim) {
   ASSERT(out.shape() == self.shape());
   auto info = getSoftmaxDimInfo(self, dim);
 
+  out.copyOnWrite();
   const T* selfPtr = self.dataPtr<T>();
   T* outPtr = out.dataPtr<T>();
 
diff --git a/src/Operation/OpTransformCpu.cpp b/src/Operation/OpTransformCpu.cpp
index 13bc098..b488ca1 100644
--- a/src/Operation/OpTransformCpu.cpp
+++ b/src/Operation/OpTransformCpu.cpp
@@ -43,6 +43,7 @@ struct DTypeSrcDispatchCpu {
 
 void dtypeCastOpCpuImpl(Tensor& dst, const Tensor& src) {
   ASSERT(src.numel() == dst.numel());
+  dst.copyOnWrite();
   DTypeSrcDispatchCpu srcDispatch{src, dst};
   dtypeCastDispatch(src.dtype(), srcDispatch);
 }
diff --git a/src/Operation/OpTransformCpu.h b/src/Operation/OpTransformCpu.h
index f8d1fe9..f5005e1 100644
--- a/src/Operation/OpTransformCpu.h
+++ b/src/Operation/OpTransformCpu.h
@@ -147,6 +147,7 @@ void indexPutAdvanceOpCpuImpl(Tensor& self, ArrayView<Tensor> indices, const Ten
   auto firstDim = indices[0].numel();
   auto dimStride = self.stride(len - 1);
 
+  self.copyOnWrite();
   T* selfPtr = self.dataPtr<T>();
   const T* valPtr = val.dataPtr<T>();
 
diff --git a/src/Serializer.cpp b/src/Serializer.cpp
index 39dfa65..607dcc9 100644
--- a/src/Serializer.cpp
+++ b/src/Serializer.cpp
@@ -175,6 +175,7 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
 
     // copy data
     const void* tensorDataPtr = dataPtr + header->dataOffset;
+    tensor->copyOnWrite();
     Storage::copyOnDevice(tensor->dataPtr<>(), tensor->device(), tensorDataPtr, Device::cpu(),
                           static_cast<int64_t>(header->dataSize));
   }
-- 
2.43.0


From 9713b5ed4c94aaa17a5ed79423549494d38e8f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:04 +0000
Subject: [PATCH 03/38] fix: accumulate gradients into a tensor of their own
 instead of the incoming gradient's tensor

---
 src/Tensor/AutogradMeta.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Tensor/AutogradMeta.cpp b/src/Tensor/AutogradMeta.cpp
index e7925d7..afbfd50 100644
--- a/src/Tensor/AutogradMeta.cpp
+++ b/src/Tensor/AutogradMeta.cpp
@@ -30,7 +30,7 @@ void AutogradMeta::addGrad(const Tensor &grad) {
   if (grad_.defined()) {
     op::addInplace(grad_, grad, 1);
   } else {
-    grad_ = grad;
+    grad_ = grad.clone();
   }
 }
 
@@ -38,7 +38,7 @@ void AutogradMeta::addGrad(Tensor &&grad) {
   if (grad_.defined()) {
     op::addInplace(grad_, grad, 1);
   } else {
-    grad_ = std::move(grad);
+    grad_ = grad.clone();
   }
 }
 
-- 
2.43.0


From 39895865d0fa18efde9a77b8330358d08d325d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:37 +0000
Subject: [PATCH 04/38] fix: scale the gradient of sub's second operand by
 alpha

---
 src/Function/FuncElemWise.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Function/FuncElemWise.h b/src/Function/FuncElemWise.h
index 0ccbec0..c9eb420 100644
--- a/src/Function/FuncElemWise.h
+++ b/src/Function/FuncElemWise.h
@@ -90,6 +90,9 @@ class FuncAdd : public Function<FuncAdd> {
 class FuncSub : public Function<FuncSub> {
  public:
   static Tensor forward(AutogradContext* ctx, const Tensor& self, const Tensor& other, const Scalar& alpha) {
+    if (ctx) {
+      ctx->pushData(alpha);
+    }
     return op::sub(self, other, alpha);
   }
 
@@ -101,7 +104,8 @@ class FuncSub : public Function<FuncSub> {
       self.addGrad(reduceGrad(self, grad));
     }
     if (other.requiresGrad()) {
-      other.addGrad(reduceGrad(other, op::neg(grad)));
+      auto alpha = Tensor::scalar(ctx->savedData.front().toScalar(), grad.options().noGrad());
+      other.addGrad(reduceGrad(other, op::neg(op::mul(grad, alpha))));
     }
   }
 };
-- 
2.43.0


From c1341c520f90c4a5ff23b507ed56f0d610a74003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:30 +0000
Subject: [PATCH 05/38] fix: permute the gradient back in the backward of
 permute

---
 src/Function/FuncTransform.h | 42 +++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/Function/FuncTransform.h b/src/Function/FuncTransform.h
index 5afc356..5ccc0f7 100644
--- a/src/Function/FuncTransform.h
+++ b/src/Function/FuncTransform.h
@@ -30,11 +30,6 @@ DEFINE_TRANSFORM_FUNCTION(FuncReshape, (AutogradContext * ctx, const Tensor& sel
 DEFINE_TRANSFORM_FUNCTION(FuncView, (AutogradContext * ctx, const Tensor& self, const IntArrayView shape),
                           return op::view(self, shape););
 
-DEFINE_TRANSFORM_FUNCTION(FuncPermute, (AutogradContext * ctx, const Tensor& self, const IntArrayView dims),
-                          return op::permute(self, dims););
-
-DEFINE_TRANSFORM_FUNCTION(FuncPermuteAll, (AutogradContext * ctx, const Tensor& self), return op::permuteAll(self););
-
 DEFINE_TRANSFORM_FUNCTION(FuncFlatten,
                           (AutogradContext * ctx, const Tensor& self, int64_t startDim = 0, int64_t endDim = -1),
                           return op::flatten(self, startDim, endDim););
@@ -49,6 +44,43 @@ DEFINE_TRANSFORM_FUNCTION(FuncSqueeze, (AutogradContext * ctx, const Tensor& sel
 DEFINE_TRANSFORM_FUNCTION(FuncUnsqueeze, (AutogradContext * ctx, const Tensor& self, int64_t dim),
                           return op::unsqueeze(self, dim););
 
+class FuncPermute : public Function<FuncPermute> {
+ public:
+  static Tensor forward(AutogradContext* ctx, const Tensor& self, const IntArrayView dims) {
+    if (ctx) {
+      for (auto d : dims) {
+        ctx->pushData(d);
+      }
+    }
+    return op::permute(self, dims);
+  }
+
+  static void backward(AutogradContext* ctx, const Tensor& grad) {
+    auto& self = ctx->savedInputs[0];
+
+    if (self.requiresGrad()) {
+      SizeVector inverse(self.dim());
+      for (int64_t i = 0; i < self.dim(); i++) {
+        inverse[ctx->savedData[i].toInt64()] = i;
+      }
+      self.addGrad(op::permute(grad, inverse));
+    }
+  }
+};
+
+class FuncPermuteAll : public Function<FuncPermuteAll> {
+ public:
+  static Tensor forward(AutogradContext* ctx, const Tensor& self) { return op::permuteAll(self); }
+
+  static void backward(AutogradContext* ctx, const Tensor& grad) {
+    auto& self = ctx->savedInputs[0];
+
+    if (self.requiresGrad()) {
+      self.addGrad(op::permuteAll(grad));
+    }
+  }
+};
+
 class FuncTranspose : public Function<FuncTranspose> {
  public:
   static Tensor forward(AutogradContext* ctx, const Tensor& self, int64_t dim0, int64_t dim1) {
-- 
2.43.0


From a02f014afe75d79def4f9c6dffaa5d55f56bfe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:25 +0000
Subject: [PATCH 06/38] fix: propagate the incoming gradient through nllLoss
 and reduce loss gradients over broadcast dimensions

---
 src/Function/FuncLoss.h      | 3 ++-
 src/Operation/OpLossCpu.h    | 4 ++--
 src/Operation/OpLossCuda.cuh | 4 ++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/Function/FuncLoss.h b/src/Function/FuncLoss.h
index 1f54ca7..f485f31 100644
--- a/src/Function/FuncLoss.h
+++ b/src/Function/FuncLoss.h
@@ -6,6 +6,7 @@
 
 #pragma once
 
+#include "FuncElemWise.h"
 #include "Operations.h"
 #include "Tensor/Function.h"
 
@@ -28,7 +29,7 @@ namespace tinytorch::function {
       auto reduction = ctx->popData().toEnum<LossReduction>();                                                        \
                                                                                                                       \
       if (input.requiresGrad()) {                                                                                     \
-        input.addGrad(BACKWARD_OP(grad, input, target, reduction));                                                   \
+        input.addGrad(reduceGrad(input, BACKWARD_OP(grad, input, target, reduction)));                                \
       }                                                                                                               \
       ASSERT(!target.requiresGrad());                                                                                 \
     }                                                                                                                 \
diff --git a/src/Operation/OpLossCpu.h b/src/Operation/OpLossCpu.h
index 4c10b25..00b89bf 100644
--- a/src/Operation/OpLossCpu.h
+++ b/src/Operation/OpLossCpu.h
@@ -42,7 +42,7 @@ Tensor mseLossOpBackwardCpuImpl(const Tensor& grad, const Tensor& input, const T
 
   switch (reduction) {
     case LossReduction::MEAN:
-      op::divInplace(out, Tensor::scalar(input.numel(), out.options().noGrad()));
+      op::divInplace(out, Tensor::scalar(out.numel(), out.options().noGrad()));
       break;
     default:
       break;
@@ -79,7 +79,7 @@ Tensor nllLossOpBackwardCpuImpl(const Tensor& grad, const Tensor& input, const T
   auto batchSize = input.shape(0);
   auto idx = Tensor::arange<int64_t>(0, batchSize, 1, input.options().noGrad());
   Tensor out = Tensor::zeros(input.shape(), input.options().noGrad());
-  op::indexPutAdvance(out, ArrayView<Tensor>{idx, target}, Tensor::scalar(-1, out.options().noGrad()));
+  op::indexPutAdvance(out, ArrayView<Tensor>{idx, target}, op::neg(grad));
 
   switch (reduction) {
     case LossReduction::MEAN:
diff --git a/src/Operation/OpLossCuda.cuh b/src/Operation/OpLossCuda.cuh
index d62baf0..6f8882f 100644
--- a/src/Operation/OpLossCuda.cuh
+++ b/src/Operation/OpLossCuda.cuh
@@ -42,7 +42,7 @@ Tensor mseLossOpBackwardCudaImpl(const Tensor& grad, const Tensor& input, const
 
   switch (reduction) {
     case LossReduction::MEAN:
-      op::divInplace(out, Tensor::scalar(input.numel(), out.options().noGrad()));
+      op::divInplace(out, Tensor::scalar(out.numel(), out.options().noGrad()));
       break;
     default:
       break;
@@ -79,7 +79,7 @@ Tensor nllLossOpBackwardCudaImpl(const Tensor& grad, const Tensor& input, const
   auto batchSize = input.shape(0);
   auto idx = Tensor::arange<int64_t>(0, batchSize, 1, input.options().noGrad());
   Tensor out = Tensor::zeros(input.shape(), input.options().noGrad());
-  op::indexPutAdvance(out, ArrayView<Tensor>{idx, target}, Tensor::scalar(-1, out.options().noGrad()));
+  op::indexPutAdvance(out, ArrayView<Tensor>{idx, target}, op::neg(grad));
 
   switch (reduction) {
     case LossReduction::MEAN:
-- 
2.43.0


From a2c5d6394d868c3a8359048b655bed0c2dbe9b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:38 +0000
Subject: [PATCH 07/38] fix: gradients of linear for inputs of any rank

---
 src/Function/FuncNNLayer.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 1003673..ed039a6 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -30,11 +30,14 @@ class FuncLinear : public Function<FuncLinear> {
     if (input.requiresGrad()) {
       input.addGrad(op::matmul(grad, weight, false, false));
     }
+    // weight and bias are shared by all leading dimensions
+    auto grad2d = op::reshape(grad, IntArrayView{-1, weight.size(0)});
     if (weight.requiresGrad()) {
-      weight.addGrad(op::matmul(grad, input, true, false));
+      auto input2d = op::reshape(input, IntArrayView{-1, weight.size(1)});
+      weight.addGrad(op::matmul(grad2d, input2d, true, false));
     }
     if (bias.defined() && bias.requiresGrad()) {
-      bias.addGrad(op::sumOnDim(grad, 0, false));
+      bias.addGrad(op::sumOnDim(grad2d, 0, false));
     }
   }
 };
-- 
2.43.0


From 169fb200189b7cdeddada921b43f420e516d9068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:35 +0000
Subject: [PATCH 08/38] fix: do not carry gradients of non-leaf tensors into
 the next backward pass

---
 src/Tensor/AutogradMeta.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Tensor/AutogradMeta.cpp b/src/Tensor/AutogradMeta.cpp
index afbfd50..8246083 100644
--- a/src/Tensor/AutogradMeta.cpp
+++ b/src/Tensor/AutogradMeta.cpp
@@ -67,6 +67,15 @@ void AutogradMeta::backward(const Tensor &grad) {
     buildBackwardGraph();
   }
 
+  // only leaf gradients accumulate across backward passes
+  for (auto &currFunc : backwardGraph_) {
+    auto owner = currFunc->weakOwner.lock();
+    ASSERT(owner != nullptr);
+    if (!owner->isLeaf()) {
+      owner->grad_ = Tensor();
+    }
+  }
+
   addGrad(grad);
   for (auto &currFunc : backwardGraph_) {
     auto owner = currFunc->weakOwner.lock();
-- 
2.43.0


From ff071350330ee0071bc59182e6b528834a03ed49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:35 +0000
Subject: [PATCH 09/38] fix: unregistering a gradient hook no longer renumbers
 the hooks registered after it

---
 src/Tensor/AutogradMeta.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Tensor/AutogradMeta.cpp b/src/Tensor/AutogradMeta.cpp
index 8246083..1fec0b4 100644
--- a/src/Tensor/AutogradMeta.cpp
+++ b/src/Tensor/AutogradMeta.cpp
@@ -91,12 +91,15 @@ int64_t AutogradMeta::registerHook(Hook::FnType fn, void *ctx) {
 
 void AutogradMeta::unregisterHook(int64_t hid) {
   ASSERT(hid >= 0 && hid < static_cast<int64_t>(hooks_.size()));
-  hooks_.erase(hooks_.begin() + hid);
+  // ids are positions: the entry stays so that the ids of later hooks remain valid
+  hooks_[hid].fn = nullptr;
 }
 
 void AutogradMeta::applyHooks() {
   for (auto &h : hooks_) {
-    h.fn(h.ctx, grad_);
+    if (h.fn != nullptr) {
+      h.fn(h.ctx, grad_);
+    }
   }
 }
 
-- 
2.43.0


From a951f781f77fd4c0208e741aa530b1be2906e884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:59 +0000
Subject: [PATCH 10/38] fix: compound assignment to a non-leaf tensor keeps the
 recorded operation

---
 src/Tensor/Tensor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Tensor/Tensor.cpp b/src/Tensor/Tensor.cpp
index bac3612..c19995f 100644
--- a/src/Tensor/Tensor.cpp
+++ b/src/Tensor/Tensor.cpp
@@ -108,6 +108,11 @@ void Tensor::initAutogradMeta(const std::shared_ptr<FunctionBase> &fn) {
 }
 
 void Tensor::inplaceSet(Tensor &&val) {
+  // a recorded result keeps its history; leaves are updated in place
+  if (val.requiresGrad() && !isLeaf()) {
+    *this = std::move(val);
+    return;
+  }
   auto reqGrad = requiresGrad();
   impl_ = std::move(val.impl_);
   impl_->options().requiresGrad(reqGrad);
-- 
2.43.0


From c084e07a11cf7477539fdd3cce15a1cb012f7925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:56 +0000
Subject: [PATCH 11/38] fix: SGD keeps its momentum in a tensor of its own
 instead of the parameter's gradient tensor

---
 src/Optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index b3c4a11..27c9897 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -69,7 +69,7 @@ void SGD::doStep() {
     }
     if (momentum_ != 0.f) {
       auto &buf = momentumBuffer_[i];
-      buf = buf.defined() ? (momentum_ * buf + (1.f - dampening_) * grad) : grad;
+      buf = buf.defined() ? (momentum_ * buf + (1.f - dampening_) * grad) : grad.clone();
       if (nesterov_) {
         grad += momentum_ * buf;
       } else {
-- 
2.43.0


From 769ad385df619f73a1b3243d84b8cbe160f94287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:56 +0000
Subject: [PATCH 12/38] fix: centered RMSprop divides by the standard
 deviation, not the variance

---
 src/Optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index 27c9897..57c6ee8 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -134,7 +134,7 @@ void RMSprop::doStep() {
     if (centered_) {
       auto &g = gradAvg_[i];
       g = alpha_ * g + (1.f - alpha_) * grad;
-      avg = v - g * g;
+      avg = (v - g * g).sqrt();
     } else {
       avg = v.sqrt();
     }
-- 
2.43.0


From 4758e70619d3a9e4ace44009c85651560da957f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:56 +0000
Subject: [PATCH 13/38] fix: AdamW does not decay parameters without gradient

---
 src/Optimizer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index 57c6ee8..9f3bae3 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -215,8 +215,11 @@ AdamW::AdamW(std::vector<TensorPtr> &&parameters, float lr, const std::pair<floa
     : Adam(std::move(parameters), lr, betas, eps, weightDecay, amsGrad) {}
 
 Tensor AdamW::getDecayedGrad(TensorPtr param) const {
-  *param *= (1.f - lr_ * weightDecay_);
-  return param->grad();
+  auto ret = param->grad();
+  if (ret.defined()) {
+    *param *= (1.f - lr_ * weightDecay_);
+  }
+  return ret;
 }
 
 }  // namespace tinytorch::optim
-- 
2.43.0


From fd8f2a81ff51d606e7b5bcc8406c635a93200d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 14/38] fix: permute without shared static scratch buffer;
 reject invalid axes

---
 src/Operation/OpTransform.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Operation/OpTransform.cpp b/src/Operation/OpTransform.cpp
index b97ea9c..c5a30f4 100644
--- a/src/Operation/OpTransform.cpp
+++ b/src/Operation/OpTransform.cpp
@@ -30,7 +30,7 @@ void offsetToIndices(int64_t* indices, const IntArrayView shape, int64_t offset)
 
 void reorderIndices(int64_t* indices, int64_t ndim, const IntArrayView order) {
   ASSERT(ndim == static_cast<int64_t>(order.size()));
-  static SizeVector temp(MAX_TENSOR_DIM);
+  SizeVector temp(ndim);
   for (auto i = 0; i < ndim; i++) {
     auto d = order[i];
     if (d < 0) {
@@ -38,6 +38,7 @@ void reorderIndices(int64_t* indices, int64_t ndim, const IntArrayView order) {
     }
     if (d < 0 || d >= ndim) {
       LOGE("Invalid axis: %lld at %lld", order[i], i);
+      ASSERT(false);
       return;
     }
     temp[i] = indices[d];
-- 
2.43.0


From 4130f608aae8cbd8693b4571bbd71e014c555214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 15/38] fix: index() views at the tensor's own storage offset;
 storage bound checked in bytes

---
 src/Operation/OpTransform.cpp | 2 +-
 src/Tensor/TensorImpl.cpp     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Operation/OpTransform.cpp b/src/Operation/OpTransform.cpp
index c5a30f4..16dc855 100644
--- a/src/Operation/OpTransform.cpp
+++ b/src/Operation/OpTransform.cpp
@@ -112,7 +112,7 @@ Tensor indexOpImpl(const Tensor& self, const IntArrayView indices) {
     retShape.pushBack(self.shape(i));
   }
   // share storage
-  auto ret = Tensor(retShape, self.options(), self.storage(), dataIdx);
+  auto ret = Tensor(retShape, self.options().noGrad(), self.storage(), self.storageOffset() + dataIdx);
   ASSERT(dimStride == ret.numel());
   return ret;
 }
diff --git a/src/Tensor/TensorImpl.cpp b/src/Tensor/TensorImpl.cpp
index b2ea842..55812f6 100644
--- a/src/Tensor/TensorImpl.cpp
+++ b/src/Tensor/TensorImpl.cpp
@@ -24,14 +24,14 @@ TensorImpl::TensorImpl(const IntArrayView shape, Options options, const std::sha
   computeNumel(numel_, shape);
   computeStrides(strides_, shape);
 
-  ASSERT(offset + nbytes() <= storage->size());
+  ASSERT(offset * static_cast<int64_t>(dtypeSize(options_.dtype_)) + nbytes() <= storage->size());
   storageOffset_ = offset;
   storage_ = storage;
   dataPtr_ = storage_->dataPtr<uint8_t>() + storageOffset_ * dtypeSize(options.dtype_);
 }
 
 void TensorImpl::setStorage(const std::shared_ptr<Storage>& storage, int64_t offset) {
-  ASSERT(offset + nbytes() <= storage->size());
+  ASSERT(offset * static_cast<int64_t>(dtypeSize(options_.dtype_)) + nbytes() <= storage->size());
   storage_ = storage;
   storageOffset_ = offset;
   dataPtr_ = storage_->dataPtr<uint8_t>() + storageOffset_ * dtypeSize(options_.dtype_);
-- 
2.43.0


From 8f495ed0501e3f51d242a53156f0b6d327bfba70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 16/38] fix: batched matmul does not step through broadcast
 batch dimensions

---
 src/Operation/OpLinalg.cpp | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/src/Operation/OpLinalg.cpp b/src/Operation/OpLinalg.cpp
index 6d956dc..7149b53 100644
--- a/src/Operation/OpLinalg.cpp
+++ b/src/Operation/OpLinalg.cpp
@@ -8,15 +8,12 @@
 
 namespace tinytorch::op {
 
-inline SizeVector makePaddedStrides(const IntArrayView &strides, int64_t targetDim) {
-  auto srcSize = static_cast<int64_t>(strides.size());
-  if (srcSize >= targetDim) {
-    return {strides};
-  }
+// strides aligned to the trailing dims of the result, zero for broadcast dims
+inline SizeVector makeBroadcastStrides(const Tensor &t, int64_t targetDim) {
   SizeVector result(targetDim, 0);
-  auto offset = targetDim - srcSize;
-  for (int64_t i = 0; i < srcSize; i++) {
-    result[offset + i] = strides[i];
+  auto offset = targetDim - t.dim();
+  for (int64_t i = 0; i < t.dim(); i++) {
+    result[offset + i] = t.shape(i) == 1 ? 0 : t.stride(i);
   }
   return result;
 }
@@ -147,8 +144,8 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
       }
     }
 
-    SizeVector aStrides = makePaddedStrides(a.strides(), retTensor.dim());
-    SizeVector bStrides = makePaddedStrides(b.strides(), retTensor.dim());
+    SizeVector aStrides = makeBroadcastStrides(a, retTensor.dim());
+    SizeVector bStrides = makeBroadcastStrides(b, retTensor.dim());
 
     // pointer arrays based batched gemm
     auto gemmBatched = getGemmBatchedFunc<T>(a.device().type);
@@ -165,12 +162,8 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
         for (auto i = retDimCnt - 3; i >= 0; i--) {
           int64_t index = tmp % retShape[i];
           tmp /= retShape[i];
-          if (static_cast<int64_t>(a.shape().size()) > i && a.shape()[i] != 1) {
-            aOffset += index * aStrides[i];
-          }
-          if (static_cast<int64_t>(b.shape().size()) > i && b.shape()[i] != 1) {
-            bOffset += index * bStrides[i];
-          }
+          aOffset += index * aStrides[i];
+          bOffset += index * bStrides[i];
         }
         aPtrsHost[batch] = selfPtr + aOffset;
         bPtrsHost[batch] = otherPtr + bOffset;
@@ -208,12 +201,8 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
       for (auto i = retDimCnt - 3; i >= 0; i--) {
         int64_t index = tmp % retShape[i];
         tmp /= retShape[i];
-        if (static_cast<int64_t>(a.shape().size()) > i && a.shape()[i] != 1) {
-          aOffset += index * aStrides[i];
-        }
-        if (static_cast<int64_t>(b.shape().size()) > i && b.shape()[i] != 1) {
-          bOffset += index * bStrides[i];
-        }
+        aOffset += index * aStrides[i];
+        bOffset += index * bStrides[i];
       }
 
       gemm(retPtr + batch * m * n, selfPtr + aOffset, otherPtr + bOffset, m, k, n, transA, transB, a.device().index);
-- 
2.43.0


From b6ea89686b85caccac6c12d323907e99151ca09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 17/38] fix: matmul of a batch with a vector drops the vector
 dimension

---
 src/Operation/OpLinalg.cpp | 46 +++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/src/Operation/OpLinalg.cpp b/src/Operation/OpLinalg.cpp
index 7149b53..638fa9a 100644
--- a/src/Operation/OpLinalg.cpp
+++ b/src/Operation/OpLinalg.cpp
@@ -92,6 +92,21 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
   retShape[retDimCnt - 1] = n;
   Tensor retTensor = Tensor::empty(retShape, a.options().noGrad());
 
+  // remove the dimension added for a 1-d operand
+  auto squeezeRet = [&]() {
+    if (!prependA && !appendB) {
+      return;
+    }
+    SizeVector shape;
+    for (int64_t i = 0; i < retDimCnt; i++) {
+      if ((prependA && i == retDimCnt - 2) || (appendB && i == retDimCnt - 1)) {
+        continue;
+      }
+      shape.pushBack(retShape[i]);
+    }
+    retTensor.reshape_(shape);
+  };
+
   const T *selfPtr = a.dataPtr<T>();
   const T *otherPtr = b.dataPtr<T>();
   T *retPtr = retTensor.dataPtr<T>();
@@ -132,14 +147,7 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
         gemmStridedBatched(retPtr, selfPtr, otherPtr, m, k, n, strideA, strideB, strideC, batchSize, transA, transB,
                            a.device().index);
 
-        // reduce dimension if necessary
-        if (appendB) {
-          if (prependA) {
-            retTensor.reshape_({});
-          } else {
-            retTensor.reshape_({m});
-          }
-        }
+        squeezeRet();
         return retTensor;
       }
     }
@@ -182,14 +190,7 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
 
       gemmBatched(cPtrsDevice, aPtrsDevice, bPtrsDevice, m, k, n, batchSize, transA, transB, a.device().index);
 
-      // reduce dimension if necessary
-      if (appendB) {
-        if (prependA) {
-          retTensor.reshape_({});
-        } else {
-          retTensor.reshape_({m});
-        }
-      }
+      squeezeRet();
       return retTensor;
     }
 
@@ -209,20 +210,9 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
     }
   } else {
     gemm(retPtr, selfPtr, otherPtr, m, k, n, transA, transB, a.device().index);
-    if (prependA) {
-      retTensor.reshape_({n});
-    }
-  }
-
-  // reduce dimension if necessary
-  if (appendB) {
-    if (prependA) {
-      retTensor.reshape_({});
-    } else {
-      retTensor.reshape_({m});
-    }
   }
 
+  squeezeRet();
   return retTensor;
 }
 
-- 
2.43.0


From 1981b44bcbf692b5fd7236f26db2125facc69872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 18/38] fix: views and scalar reductions return detached
 tensors, not the input or a gradient-tracking copy

---
 src/Function/FuncNNLayer.h     |  2 +-
 src/Operation/OpReduceCpu.h    | 14 +++++++-------
 src/Operation/OpReduceCuda.cuh | 14 +++++++-------
 src/Operation/OpTransform.cpp  | 10 +++++-----
 src/Operation/OpTransformCpu.h |  2 +-
 src/Tensor/Tensor.cpp          |  7 +++++++
 src/Tensor/Tensor.h            |  1 +
 7 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index ed039a6..563a354 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -49,7 +49,7 @@ class FuncDropout : public Function<FuncDropout> {
       ctx->pushData(training);
     }
     if (!training) {
-      return input.clone();
+      return input.detach();
     }
     auto mask = Tensor::bernoulli(input.shape(), 1.f - p, input.options().noGrad());
     auto output = op::dropoutMasked(input, mask, 1.f - p);
diff --git a/src/Operation/OpReduceCpu.h b/src/Operation/OpReduceCpu.h
index 77be05e..4f5f0db 100644
--- a/src/Operation/OpReduceCpu.h
+++ b/src/Operation/OpReduceCpu.h
@@ -183,7 +183,7 @@ Tensor ReducerCpu::reduceMultiDim(const Tensor &t, const IntArrayView dims, bool
 template <typename T, typename OP>
 Tensor reduceOpAllCpuImpl(const Tensor &t) {
   if (t.isScalar()) {
-    return t;
+    return t.detach();
   }
   auto ret = Tensor::empty({}, t.options().noGrad());
   const T *tPtr = t.dataPtr<T>();
@@ -207,7 +207,7 @@ Tensor reduceOpArgMinMaxCpuImpl(const Tensor &t) {
 template <typename T, typename OP>
 TensorPair reduceOpMinMaxDimCpuImpl(const Tensor &t, int64_t dim, bool keepDims = false) {
   if (t.isScalar()) {
-    return {t, Tensor::scalar(0, t.options().noGrad().indices())};
+    return {t.detach(), Tensor::scalar(0, t.options().noGrad().indices())};
   }
   return ReducerCpu::reduceIdxDim<T, OP>(t, dim, keepDims);
 }
@@ -215,7 +215,7 @@ TensorPair reduceOpMinMaxDimCpuImpl(const Tensor &t, int64_t dim, bool keepDims
 template <typename T>
 Tensor reduceOpSumDimsCpuImpl(const Tensor &t, const IntArrayView dims, bool keepDims = false) {
   if (t.isScalar()) {
-    return t;
+    return t.detach();
   }
   ASSERT(!dims.empty());
   return ReducerCpu::reduceMultiDim<T>(t, dims, keepDims, [](T *retPtr, const T *tPtr, int64_t retIdx, int64_t srcIdx) {
@@ -236,7 +236,7 @@ Tensor reduceOpSumCpuImpl(const Tensor &t) {
 template <typename T>
 Tensor reduceOpMeanCpuImpl(const Tensor &t) {
   if (t.isScalar()) {
-    return t;
+    return t.detach();
   }
   auto ret = reduceOpAllCpuImpl<T, OpCpuReduceSum>(t);
   const auto r = 1.f / static_cast<float>(t.numel());
@@ -247,7 +247,7 @@ Tensor reduceOpMeanCpuImpl(const Tensor &t) {
 template <typename T>
 Tensor reduceOpMeanDimsCpuImpl(const Tensor &t, const IntArrayView dims, bool keepDims = false) {
   if (t.isScalar()) {
-    return t;
+    return t.detach();
   }
   ASSERT(!dims.empty());
   auto ret = reduceOpSumDimsCpuImpl<T>(t, dims, keepDims);
@@ -266,7 +266,7 @@ Tensor reduceOpMeanDimCpuImpl(const Tensor &t, const int64_t dim, bool keepDims
 template <typename T>
 TensorPair reduceOpVarMeanCpuImpl(const Tensor &t, bool unbiased = true) {
   if (t.isScalar()) {
-    return {Tensor::scalar(0, t.options().noGrad()), t};
+    return {Tensor::scalar(0, t.options().noGrad()), t.detach()};
   }
   const auto meanVal = op::mean(t);
 
@@ -292,7 +292,7 @@ template <typename T>
 TensorPair reduceOpVarMeanDimsCpuImpl(const Tensor &t, const IntArrayView dims, bool unbiased = true,
                                       bool keepDims = false) {
   if (t.isScalar()) {
-    return {Tensor::scalar(0, t.options().noGrad()), t};
+    return {Tensor::scalar(0, t.options().noGrad()), t.detach()};
   }
   ASSERT(!dims.empty());
   auto meanVal = op::meanOnDims(t, dims, true);
diff --git a/src/Operation/OpReduceCuda.cuh b/src/Operation/OpReduceCuda.cuh
index 47fc0f8..40e8d68 100644
--- a/src/Operation/OpReduceCuda.cuh
+++ b/src/Operation/OpReduceCuda.cuh
@@ -639,7 +639,7 @@ template <typename T, typename OP>
 Tensor reduceOpAllCudaImpl(const Tensor& t) {
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   if (t.isScalar()) {
-    return t;
+    return t.detach();
   }
   auto ret = Tensor::scalar(0, t.options().noGrad());
   const CudaT* tPtr = t.dataPtr<CudaT>();
@@ -665,7 +665,7 @@ template <typename T, typename OP>
 TensorPair reduceOpMinMaxDimCudaImpl(const Tensor& t, int64_t dim, bool keepDims = false) {
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   if (t.isScalar()) {
-    return {t, Tensor::scalar(0, t.options().noGrad().indices())};
+    return {t.detach(), Tensor::scalar(0, t.options().noGrad().indices())};
   }
   return ReducerCuda::reduceIdxDim<CudaT, OP>(t, dim, keepDims);
 }
@@ -674,7 +674,7 @@ template <typename T>
 Tensor reduceOpSumDimsCudaImpl(const Tensor& t, const IntArrayView dims, bool keepDims = false) {
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   if (t.isScalar()) {
-    return t;
+    return t.detach();
   }
   ASSERT(!dims.empty());
 
@@ -728,7 +728,7 @@ template <typename T>
 Tensor reduceOpMeanCudaImpl(const Tensor& t) {
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   if (t.isScalar()) {
-    return t;
+    return t.detach();
   }
   auto ret = reduceOpAllCudaImpl<CudaT, OpCudaReduceSum>(t);
   const auto r = 1.f / static_cast<float>(t.numel());
@@ -740,7 +740,7 @@ template <typename T>
 Tensor reduceOpMeanDimsCudaImpl(const Tensor& t, const IntArrayView dims, bool keepDims = false) {
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   if (t.isScalar()) {
-    return t;
+    return t.detach();
   }
   ASSERT(!dims.empty());
   auto ret = reduceOpSumDimsCudaImpl<CudaT>(t, dims, keepDims);
@@ -760,7 +760,7 @@ template <typename T>
 TensorPair reduceOpVarMeanCudaImpl(const Tensor& t, bool unbiased = true) {
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   if (t.isScalar()) {
-    return {Tensor::scalar(0, t.options().noGrad()), t};
+    return {Tensor::scalar(0, t.options().noGrad()), t.detach()};
   }
   const auto meanVal = op::mean(t);
   auto squaredDiff = Tensor::empty({t.numel()}, t.options().noGrad());
@@ -790,7 +790,7 @@ TensorPair reduceOpVarMeanDimsCudaImpl(const Tensor& t, IntArrayView dims, bool
                                        bool keepDims = false) {
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   if (t.isScalar()) {
-    return {Tensor::scalar(0, t.options().noGrad()), t};
+    return {Tensor::scalar(0, t.options().noGrad()), t.detach()};
   }
   ASSERT(!dims.empty());
 
diff --git a/src/Operation/OpTransform.cpp b/src/Operation/OpTransform.cpp
index 16dc855..e56fd62 100644
--- a/src/Operation/OpTransform.cpp
+++ b/src/Operation/OpTransform.cpp
@@ -47,7 +47,7 @@ void reorderIndices(int64_t* indices, int64_t ndim, const IntArrayView order) {
 }
 
 Tensor reshapeOpImpl(const Tensor& self, const IntArrayView shape) {
-  Tensor ret = self.clone();
+  Tensor ret = self.detach();
   ret.getImpl().reshape_(shape);
   return ret;
 }
@@ -58,7 +58,7 @@ void reshapeOpInplaceImpl(Tensor& self, const IntArrayView shape) {
 }
 
 Tensor flattenOpImpl(const Tensor& self, int64_t startDim, int64_t endDim) {
-  Tensor ret = self.clone();
+  Tensor ret = self.detach();
   ret.getImpl().flatten_(startDim, endDim);
   return ret;
 }
@@ -68,7 +68,7 @@ void flattenOpInplaceImpl(Tensor& self, int64_t startDim = 0, int64_t endDim = -
 }
 
 Tensor unflattenOpImpl(const Tensor& self, int64_t dim, const IntArrayView shape) {
-  Tensor ret = self.clone();
+  Tensor ret = self.detach();
   ret.getImpl().unflatten_(dim, shape);
   return ret;
 }
@@ -77,14 +77,14 @@ void unflattenOpInplaceImpl(Tensor& self, int64_t dim, const IntArrayView shape)
 }
 
 Tensor squeezeOpImpl(const Tensor& self, const IntArrayView dims) {
-  Tensor ret = self.clone();
+  Tensor ret = self.detach();
   ret.getImpl().squeeze_(dims);
   return ret;
 }
 void squeezeOpInplaceImpl(Tensor& self, const IntArrayView dims) { self.getImpl().squeeze_(dims); }
 
 Tensor unsqueezeOpImpl(const Tensor& self, int64_t dim) {
-  Tensor ret = self.clone();
+  Tensor ret = self.detach();
   ret.getImpl().unsqueeze_(dim);
   return ret;
 }
diff --git a/src/Operation/OpTransformCpu.h b/src/Operation/OpTransformCpu.h
index f5005e1..4f0c8fe 100644
--- a/src/Operation/OpTransformCpu.h
+++ b/src/Operation/OpTransformCpu.h
@@ -66,7 +66,7 @@ Tensor transposeOpCpuImpl(const Tensor& self, int64_t dim0, int64_t dim1) {
   }
 
   if (dim0 == dim1) {
-    return self.clone();
+    return self.detach();
   }
 
   if ((self.size(dim0) == 1 || self.size(dim1) == 1) && std::abs(dim0 - dim1) == 1) {
diff --git a/src/Tensor/Tensor.cpp b/src/Tensor/Tensor.cpp
index c19995f..642e797 100644
--- a/src/Tensor/Tensor.cpp
+++ b/src/Tensor/Tensor.cpp
@@ -134,6 +134,13 @@ Tensor Tensor::clone() const {
   return ret;
 }
 
+Tensor Tensor::detach() const {
+  Tensor ret;
+  ret.impl_ = std::make_shared<TensorImpl>(*this->impl_);
+  ret.impl_->options().requiresGrad(false);
+  return ret;
+}
+
 void Tensor::copy_(const Tensor &src) {
   ASSERT(src.defined() && this->defined());
   ASSERT(src.shape() == this->shape());
diff --git a/src/Tensor/Tensor.h b/src/Tensor/Tensor.h
index bad7ef0..365cea6 100644
--- a/src/Tensor/Tensor.h
+++ b/src/Tensor/Tensor.h
@@ -118,6 +118,7 @@ class Tensor {
 
   void copyOnWrite() const { impl_->copyOnWrite(); }
   Tensor clone() const;
+  Tensor detach() const;
   void copy_(const Tensor& src);
 
   std::shared_ptr<FunctionBase>& gradFn() const;
-- 
2.43.0


From c0af388ed39517e9cf0f5c1ad705556db054b9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:22 +0000
Subject: [PATCH 19/38] fix: flatten counts negative dimensions from the end

---
 src/Tensor/TensorImpl.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Tensor/TensorImpl.cpp b/src/Tensor/TensorImpl.cpp
index 55812f6..a73f766 100644
--- a/src/Tensor/TensorImpl.cpp
+++ b/src/Tensor/TensorImpl.cpp
@@ -91,14 +91,17 @@ void TensorImpl::reshape_(const IntArrayView shape) {
 }
 
 void TensorImpl::flatten_(int64_t startDim, int64_t endDim) {
+  if (startDim < 0) {
+    startDim += dim();
+  }
+  if (endDim < 0) {
+    endDim += dim();
+  }
   SizeVector retShape;
   for (int64_t i = 0; i < startDim; i++) {
     retShape.pushBack(shape_[i]);
   }
   int64_t flattenDims = 1;
-  if (endDim < 0) {
-    endDim = dim() - 1;
-  }
   for (int64_t i = startDim; i <= endDim; i++) {
     flattenDims *= shape_[i];
   }
-- 
2.43.0


From 3c8f1bca5b8b5b58b5cf1c91474e356d78bacbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:02 +0000
Subject: [PATCH 20/38] fix: mean next to a variance over dimensions honours
 keepDims

---
 src/Operation/OpReduceCpu.h       | 4 ++++
 src/Operation/OpReduceCuda.cuh    | 3 +++
 src/Operation/OpTransformCuda.cuh | 2 +-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Operation/OpReduceCpu.h b/src/Operation/OpReduceCpu.h
index 4f5f0db..3f6b2e3 100644
--- a/src/Operation/OpReduceCpu.h
+++ b/src/Operation/OpReduceCpu.h
@@ -8,6 +8,7 @@
 
 #include "OpElemWise.h"
 #include "OpReduce.h"
+#include "OpTransform.h"
 
 namespace tinytorch::op {
 
@@ -310,6 +311,9 @@ TensorPair reduceOpVarMeanDimsCpuImpl(const Tensor &t, const IntArrayView dims,
       r *= reduceSize / (reduceSize - 1.f);
     }
     op::mulInplace(varVal, Tensor::scalar(r, varVal.options().noGrad()));
+    if (!keepDims) {
+      meanVal = op::reshape(meanVal, varVal.shape());
+    }
   }
   return {varVal, meanVal};
 }
diff --git a/src/Operation/OpReduceCuda.cuh b/src/Operation/OpReduceCuda.cuh
index 40e8d68..b77662b 100644
--- a/src/Operation/OpReduceCuda.cuh
+++ b/src/Operation/OpReduceCuda.cuh
@@ -825,6 +825,9 @@ TensorPair reduceOpVarMeanDimsCudaImpl(const Tensor& t, IntArrayView dims, bool
     r *= reduceSize / (reduceSize - 1.f);
   }
   op::mulInplace(varVal, Tensor::scalar(r, varVal.options().noGrad()));
+  if (!keepDims) {
+    meanVal = op::reshape(meanVal, retShape);
+  }
   return {varVal, meanVal};
 }
 
diff --git a/src/Operation/OpTransformCuda.cuh b/src/Operation/OpTransformCuda.cuh
index bfb781f..70c2b04 100644
--- a/src/Operation/OpTransformCuda.cuh
+++ b/src/Operation/OpTransformCuda.cuh
@@ -406,7 +406,7 @@ Tensor transposeOpCudaImpl(const Tensor& self, int64_t dim0, int64_t dim1) {
   }
 
   if (dim0 == dim1) {
-    return self.clone();
+    return self.detach();
   }
 
   if (dim0 > dim1) {
-- 
2.43.0


From 7d8533cff382e3b4133e3c4762b64d4ae50a45cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:38 +0000
Subject: [PATCH 21/38] fix: conv2d and maxPool2d results with several channels
 were laid out channel-last under a channel-first shape

---
 src/Function/FuncNNLayer.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 563a354..f53e53f 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -97,8 +97,10 @@ class FuncMaxPool : public Function<FuncMaxPool> {
     auto maxRet = op::maxOnDim(col, 1, false);
     auto maxIndices = maxRet.second;
 
+    // rows of col are ordered by (batch, outH, outW, channel)
     auto output = maxRet.first;
-    output.reshape_({batch, channels, outH, outW});
+    output.reshape_({batch, outH, outW, channels});
+    output = op::permute(output, IntArrayView{0, 3, 1, 2});
 
     if (ctx) {
       ctx->pushData(kernel);
@@ -134,7 +136,8 @@ class FuncMaxPool : public Function<FuncMaxPool> {
 
       auto gradCol = Tensor::zeros({grad.numel(), kernel.h * kernel.w}, input.options().noGrad());
       auto idx = Tensor::arange<int64_t>(0, grad.numel(), 1, input.options().noGrad());
-      op::indexPutAdvance(gradCol, ArrayView<Tensor>{idx, maxIndices}, grad);
+      auto gradFlat = op::reshape(op::permute(grad, IntArrayView{0, 2, 3, 1}), IntArrayView{-1});
+      op::indexPutAdvance(gradCol, ArrayView<Tensor>{idx, maxIndices}, gradFlat);
       gradCol.reshape_({batch * outH * outW, channels * kernel.h * kernel.w});
       auto inputGrad = op::col2im(gradCol, shape, kernel, stride, padding);
       // TODO fuse
@@ -170,7 +173,9 @@ class FuncConv2D : public Function<FuncConv2D> {
       ASSERT(bias.shape()[0] == outChannels);
       op::addInplace(ret, bias, 1);
     }
-    ret.reshape_({batch, outChannels, outH, outW});
+    // rows of ret are ordered by (batch, outH, outW)
+    ret.reshape_({batch, outH, outW, outChannels});
+    ret = op::permute(ret, IntArrayView{0, 3, 1, 2});
 
     if (ctx) {
       ctx->pushData(stride);
@@ -191,7 +196,7 @@ class FuncConv2D : public Function<FuncConv2D> {
     auto stride = ctx->popData().toDim2D();
     auto padding = ctx->popData().toDim2D();
 
-    auto gradW = op::reshape(grad, IntArrayView{-1, outChannels});
+    auto gradW = op::reshape(op::permute(grad, IntArrayView{0, 2, 3, 1}), IntArrayView{-1, outChannels});
     auto colW = op::reshape(weight, IntArrayView{outChannels, -1});
 
     if (input.requiresGrad()) {
-- 
2.43.0


From 32404280275a5df3e43cfe3c4f17348531b162ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 22/38] fix: sdpAttention kept attention weights with the
 probability it was told to drop them

---
 src/Function/FuncNNLayer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index f53e53f..bfdec13 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -278,7 +278,8 @@ class FuncSDPAttention : public Function<FuncSDPAttention> {
     }
     attnWeight = op::softmax(attnWeight, -1);
     if (dropoutP > 0.f) {
-      attnWeight = op::dropout(attnWeight, dropoutP);
+      // op::dropout takes the probability to keep an element
+      attnWeight = op::dropout(attnWeight, 1.f - dropoutP);
     }
     return op::matmul(attnWeight, value, false, false);
     // TODO fuse
-- 
2.43.0


From 082c96235cb3cbbf8c7d3131964bd35e0b88e7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 23/38] fix: random fills, dropout and multinomial drew from a
 copy of the generator, so every call after manualSeed repeated the same
 numbers

---
 src/Operation/OpFillingCpu.h  | 6 +++---
 src/Operation/OpNNLayerCpu.h  | 2 +-
 src/Operation/OpSamplingCpu.h | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Operation/OpFillingCpu.h b/src/Operation/OpFillingCpu.h
index f64bc75..44d7941 100644
--- a/src/Operation/OpFillingCpu.h
+++ b/src/Operation/OpFillingCpu.h
@@ -79,7 +79,7 @@ template <typename T>
 void fillOpRandUniformCpuImpl(Tensor& self, float min, float max) {
   self.copyOnWrite();
   auto* selfPtr = self.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::uniform_real_distribution distribution(min, max);
   for (int64_t i = 0; i < self.numel(); i++) {
     selfPtr[i] = static_cast<T>(distribution(generator));
@@ -90,7 +90,7 @@ template <typename T>
 void fillOpRandNormalCpuImpl(Tensor& self, float mean, float stddev) {
   self.copyOnWrite();
   auto* selfPtr = self.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::normal_distribution distribution(mean, stddev);
   for (int64_t i = 0; i < self.numel(); i++) {
     selfPtr[i] = static_cast<T>(distribution(generator));
@@ -101,7 +101,7 @@ template <typename T>
 void fillOpRandBernoulliCpuImpl(Tensor& self, float p) {
   self.copyOnWrite();
   auto* selfPtr = self.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::bernoulli_distribution distribution(p);
   for (int64_t i = 0; i < self.numel(); i++) {
     selfPtr[i] = static_cast<T>(distribution(generator));
diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 8fcbdc7..47f9b20 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -159,7 +159,7 @@ Tensor dropoutOpCpuImpl(const Tensor& self, float p) {
   Tensor out(self.shape(), self.options().noGrad());
   const auto* selfPtr = self.dataPtr<T>();
   auto* outPtr = out.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::bernoulli_distribution distribution(p);
   for (int64_t i = 0; i < self.numel(); i++) {
     outPtr[i] = static_cast<T>(static_cast<float>(selfPtr[i]) * static_cast<float>(distribution(generator)) / p);
diff --git a/src/Operation/OpSamplingCpu.h b/src/Operation/OpSamplingCpu.h
index 1407625..26597e2 100644
--- a/src/Operation/OpSamplingCpu.h
+++ b/src/Operation/OpSamplingCpu.h
@@ -88,7 +88,7 @@ Tensor multinomialOpCpuImpl(const Tensor& self, int64_t numSamples, bool replace
   const T* selfPtr = self.dataPtr<T>();
   auto* retPtr = ret.dataPtr<int64_t>();
 
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::uniform_real_distribution<float> dist(0.f, 1.f);
 
   for (int64_t b = 0; b < batch; b++) {
-- 
2.43.0


From 0bbc3b89ba7fd6d0fc13f94e137de78d36196f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 24/38] fix: samplers reseeded the global random generator

---
 src/Data/Sampler.h                     | 2 +-
 src/Distributed/DistributedSampler.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Data/Sampler.h b/src/Data/Sampler.h
index 8ee1d47..4bdadfc 100644
--- a/src/Data/Sampler.h
+++ b/src/Data/Sampler.h
@@ -53,7 +53,7 @@ class RandomSampler : public Sampler {
     indices_.resize(datasetSize_);
     std::iota(indices_.begin(), indices_.end(), 0);
 
-    auto& gen = RandomGeneratorCPU::getGenerator();
+    std::default_random_engine gen;
     gen.seed(static_cast<unsigned int>(seed_ + epoch_));
     std::shuffle(indices_.begin(), indices_.end(), gen);
   }
diff --git a/src/Distributed/DistributedSampler.cpp b/src/Distributed/DistributedSampler.cpp
index 8963521..8e0ea37 100644
--- a/src/Distributed/DistributedSampler.cpp
+++ b/src/Distributed/DistributedSampler.cpp
@@ -41,7 +41,7 @@ void DistributedSampler::generateIndices() {
   std::iota(allIndices.begin(), allIndices.end(), 0);
 
   if (shuffle_) {
-    auto& gen = RandomGeneratorCPU::getGenerator();
+    std::default_random_engine gen;
     gen.seed(static_cast<unsigned int>(seed_ + epoch_));
     std::shuffle(allIndices.begin(), allIndices.end(), gen);
   }
-- 
2.43.0


From cca3f6c23ca255bee4b36e0c3125b5d5016e7853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 25/38] fix: count DataLoader batches with integers (float
 rounding dropped the last batch of large datasets)

---
 src/Data/DataLoader.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Data/DataLoader.h b/src/Data/DataLoader.h
index f0b7be8..ef3b876 100644
--- a/src/Data/DataLoader.h
+++ b/src/Data/DataLoader.h
@@ -28,10 +28,9 @@ class DataLoader {
       }
     }
 
-    if (dropLast) {
-      batchCnt_ = indices_.size() / batchSize;
-    } else {
-      batchCnt_ = std::ceil(static_cast<float>(indices_.size()) * 1.0f / static_cast<float>(batchSize));
+    batchCnt_ = indices_.size() / batchSize;
+    if (!dropLast && indices_.size() % batchSize != 0) {
+      batchCnt_++;
     }
   }
 
-- 
2.43.0


From 834ccc32d8e7154842c04da1a1b799f0360c8f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 26/38] fix: count DistributedSampler samples with integers
 (float rounding dropped samples of large datasets)

---
 src/Distributed/DistributedSampler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Distributed/DistributedSampler.cpp b/src/Distributed/DistributedSampler.cpp
index 8e0ea37..6fa8e9c 100644
--- a/src/Distributed/DistributedSampler.cpp
+++ b/src/Distributed/DistributedSampler.cpp
@@ -30,7 +30,7 @@ DistributedSampler::DistributedSampler(size_t datasetSize, std::optional<size_t>
   if (dropLast_) {
     numSamples_ = datasetSize_ / numReplicas_;
   } else {
-    numSamples_ = std::ceil(static_cast<float>(datasetSize_) * 1.0f / static_cast<float>(numReplicas_));
+    numSamples_ = datasetSize_ / numReplicas_ + (datasetSize_ % numReplicas_ != 0 ? 1 : 0);
   }
   totalSize_ = numSamples_ * numReplicas_;
   generateIndices();
-- 
2.43.0


From 9f873b67d07edcbbd36f664b3abc73097e65dfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 27/38] fix: pad DistributedSampler indices cyclically (more
 replicas than samples read past the end, self-range insert)

---
 src/Distributed/DistributedSampler.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Distributed/DistributedSampler.cpp b/src/Distributed/DistributedSampler.cpp
index 6fa8e9c..6568fb6 100644
--- a/src/Distributed/DistributedSampler.cpp
+++ b/src/Distributed/DistributedSampler.cpp
@@ -47,9 +47,10 @@ void DistributedSampler::generateIndices() {
   }
 
   if (!dropLast_) {
-    if (allIndices.size() < totalSize_) {
-      allIndices.insert(allIndices.end(), allIndices.begin(),
-                        allIndices.begin() + static_cast<int64_t>(totalSize_ - allIndices.size()));
+    // repeat from the start until every replica has numSamples_ indices
+    allIndices.reserve(totalSize_);
+    for (size_t i = 0; allIndices.size() < totalSize_; i++) {
+      allIndices.push_back(allIndices[i]);
     }
   } else {
     allIndices.resize(totalSize_);
-- 
2.43.0


From 4a1bfd814cdfb997271554851bc842e80e84f432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 28/38] fix: broadcast dimensions of size zero to zero, not to
 one

---
 src/Tensor/TensorIterator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Tensor/TensorIterator.cpp b/src/Tensor/TensorIterator.cpp
index d7d51e7..6698c11 100644
--- a/src/Tensor/TensorIterator.cpp
+++ b/src/Tensor/TensorIterator.cpp
@@ -81,7 +81,7 @@ bool TensorIteratorBase::broadcastShape(SizeVector& ret, const SmallVector<IntAr
         LOGE("Incompatible shapes for broadcasting");
         return false;
       }
-      dim = std::max(dim, d);
+      dim = dim == 1 ? d : dim;
     }
     ret[i] = dim;
   }
-- 
2.43.0


From 7f850af3e503519d470c8ab1921a508b265ed232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:31 +0000
Subject: [PATCH 29/38] fix: Serializer::save reports a failed write

---
 src/Serializer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Serializer.cpp b/src/Serializer.cpp
index 607dcc9..028dc00 100644
--- a/src/Serializer.cpp
+++ b/src/Serializer.cpp
@@ -74,6 +74,10 @@ bool Serializer::save(nn::Module& module, const std::string& path) {
   }
 
   ofs.close();
+  if (!ofs) {
+    LOGE("Error write file: %s", path.c_str());
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From 9cbfe692190381a0bb3c1c818d9fdec8e07d80e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:31 +0000
Subject: [PATCH 30/38] fix: Serializer::load refuses truncated or corrupt
 files instead of reading out of bounds

---
 src/Serializer.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/Serializer.cpp b/src/Serializer.cpp
index 028dc00..97bdf57 100644
--- a/src/Serializer.cpp
+++ b/src/Serializer.cpp
@@ -91,7 +91,16 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
   const char* dataPtr = static_cast<const char*>(mappingResult.dataPtr);
   size_t offset = 0;
 
+  // offset never exceeds fileSize
+  auto available = [&](uint64_t size) { return size <= mappingResult.fileSize - offset; };
+
   // read header
+  if (!available(3 * sizeof(uint64_t))) {
+    LOGE("Truncated file: %s", path.c_str());
+    MMapUtils::unmapFile(mappingResult);
+    return false;
+  }
+
   uint64_t magic = *reinterpret_cast<const uint64_t*>(dataPtr + offset);
   offset += sizeof(magic);
 
@@ -122,9 +131,20 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
   ankerl::unordered_dense::set<std::string> fileKeys;
   // read tensors
   for (uint64_t i = 0; i < tensorCount; i++) {
+    if (!available(sizeof(TensorHeader))) {
+      LOGE("Truncated file: %s", path.c_str());
+      success = false;
+      break;
+    }
     const auto* header = reinterpret_cast<const TensorHeader*>(dataPtr + offset);
     offset += sizeof(TensorHeader);
 
+    if (!available(header->nameLength) || header->ndim > mappingResult.fileSize / sizeof(int64_t) ||
+        !available(header->nameLength + header->ndim * sizeof(int64_t))) {
+      LOGE("Truncated file: %s", path.c_str());
+      success = false;
+      break;
+    }
     std::string name(dataPtr + offset, header->nameLength);
     offset += header->nameLength;
     fileKeys.insert(name);
@@ -171,7 +191,8 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
     }
 
     // check dataOffset
-    if (header->dataOffset + header->dataSize > mappingResult.fileSize) {
+    if (header->dataOffset > mappingResult.fileSize ||
+        header->dataSize > mappingResult.fileSize - header->dataOffset) {
       LOGE("Tensor data out of file range: %s", name.c_str());
       success = false;
       continue;
-- 
2.43.0


From 0091e7e13b29c7d67835b055864b5048701dba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:28 +0000
Subject: [PATCH 31/38] fix: CachedAllocator serialises concurrent
 allocate/deallocate

---
 src/Tensor/CachedAllocator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Tensor/CachedAllocator.cpp b/src/Tensor/CachedAllocator.cpp
index 6baa2c3..0785a53 100644
--- a/src/Tensor/CachedAllocator.cpp
+++ b/src/Tensor/CachedAllocator.cpp
@@ -8,6 +8,7 @@
 
 #include <array>
 #include <memory>
+#include <mutex>
 #include <set>
 
 #include "Utils/Logger.h"
@@ -251,6 +252,7 @@ class CachedAllocatorImpl : public Allocator {
   }
 
   void* allocate(int64_t nbytes) override {
+    std::lock_guard<std::mutex> lock(mutex_);
     Block* block = mallocImpl(nbytes);
     if (block) {
       activeBlocks[block->ptr] = block;
@@ -262,6 +264,7 @@ class CachedAllocatorImpl : public Allocator {
   }
 
   void deallocate(void* ptr) override {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto it = activeBlocks.find(ptr);
     if (it != activeBlocks.end()) {
       freeImpl(it->second);
@@ -281,6 +284,7 @@ class CachedAllocatorImpl : public Allocator {
  private:
   Allocator* base_;
   uint64_t totalAllocatedSize_;
+  std::mutex mutex_;
 
   BlockPool largeBlocks;
   BlockPool smallBlocks;
-- 
2.43.0


From 17eeb564449b2fec991284311a3d5e01199f552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:41 +0000
Subject: [PATCH 32/38] fix: Storage deleter no longer refers to a moved-from
 Storage

---
 src/Tensor/Storage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Tensor/Storage.cpp b/src/Tensor/Storage.cpp
index 7fba16f..8d66a5d 100644
--- a/src/Tensor/Storage.cpp
+++ b/src/Tensor/Storage.cpp
@@ -22,7 +22,8 @@ Storage::Storage(int64_t nbytes, Device device, Allocator* allocator)
       allocator_(allocator ? allocator : getAllocator(Options(device))),
       data_(nullptr, [](void*) {}) {
   void* ptr = allocator_->allocate(nbytes_);
-  data_ = std::unique_ptr<void, std::function<void(void*)>>(ptr, [&](void* p) { allocator_->deallocate(p); });
+  data_ = std::unique_ptr<void, std::function<void(void*)>>(
+      ptr, [allocator = allocator_](void* p) { allocator->deallocate(p); });
 }
 
 std::shared_ptr<Storage> Storage::clone() const {
-- 
2.43.0


From 50eb773be08e776c04a925e14f76b7aadf28d29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:41 +0000
Subject: [PATCH 33/38] fix: memory goes back to where it came from when the
 cache is switched on or off

---
 src/Tensor/CachedAllocator.cpp | 3 ++-
 src/Tensor/CachedAllocator.h   | 9 ++-------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/Tensor/CachedAllocator.cpp b/src/Tensor/CachedAllocator.cpp
index 0785a53..81af36e 100644
--- a/src/Tensor/CachedAllocator.cpp
+++ b/src/Tensor/CachedAllocator.cpp
@@ -270,7 +270,8 @@ class CachedAllocatorImpl : public Allocator {
       freeImpl(it->second);
       activeBlocks.erase(it);
     } else {
-      LOGE("deallocate error, ptr not valid: %p", ptr);
+      // allocated while the cache was disabled
+      base_->deallocate(ptr);
     }
   }
 
diff --git a/src/Tensor/CachedAllocator.h b/src/Tensor/CachedAllocator.h
index 63bf375..4a02545 100644
--- a/src/Tensor/CachedAllocator.h
+++ b/src/Tensor/CachedAllocator.h
@@ -23,13 +23,8 @@ class CachedAllocator : public Allocator {
     return impl_->allocate(nbytes);
   }
 
-  void deallocate(void* ptr) override {
-    if (!cacheEnabled_) {
-      base_->deallocate(ptr);
-      return;
-    }
-    impl_->deallocate(ptr);
-  }
+  // the memory may have been allocated under the other cache setting
+  void deallocate(void* ptr) override { impl_->deallocate(ptr); }
 
  private:
   static bool cacheEnabled_;
-- 
2.43.0


From 3192b3f7977d5224284551f2c9a91de775d7ffba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:52 +0000
Subject: [PATCH 34/38] fix: TCPStore set/add keep waiters registered until
 they leave

---
 src/Distributed/TCPStore.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index f5f017e..ae80376 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -919,7 +919,6 @@ bool TCPStore::ServerImpl::handleSetCommand(socket_t socket) {
       for (auto& cv : it->second) {
         cv->notify_all();
       }
-      keyCVs_.erase(it);
     }
   }
 
@@ -1041,7 +1040,6 @@ bool TCPStore::ServerImpl::handleAddCommand(socket_t socket) {
       for (auto& cv : it->second) {
         cv->notify_all();
       }
-      keyCVs_.erase(it);
     }
   }
 
-- 
2.43.0


From 75cbf5fcc4b7ebe53a789f8f05837d6fd32ccc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:52 +0000
Subject: [PATCH 35/38] fix: TCPStore server no longer deadlocks with more than
 128 clients

---
 src/Distributed/TCPStore.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index ae80376..09b54aa 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -753,9 +753,8 @@ void TCPStore::ServerImpl::cleanupDisconnectedClients() {
   }
 }
 
+// the caller holds clientThreadsMutex_
 void TCPStore::ServerImpl::cleanupFinishedThreads() {
-  std::lock_guard<std::mutex> lock(clientThreadsMutex_);
-
   auto it = clientThreads_.begin();
   while (it != clientThreads_.end()) {
     if ((*it)->joinable()) {
-- 
2.43.0


From 1aed20c91eff5c9c50b6fddf843e0f156ca5aca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:52 +0000
Subject: [PATCH 36/38] fix: TCPStore client monitor no longer closes sockets
 that are in use

---
 src/Distributed/TCPStore.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index 09b54aa..f71b448 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -745,7 +745,8 @@ void TCPStore::ServerImpl::cleanupDisconnectedClients() {
   while (it != activeClients_.end()) {
     if (!detail::isSocketConnected(*it)) {
       LOGI("TCPStore: Detected disconnected client, cleaning up");
-      closesocket(*it);
+      // the thread that serves the client closes the socket
+      ::shutdown(*it, SHUT_RDWR);
       it = activeClients_.erase(it);
     } else {
       ++it;
-- 
2.43.0


From 096cecc62e0196ee219eb7f459036dff999ba5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:28 +0000
Subject: [PATCH 37/38] fix: TCPStore server joins its threads before it is
 destroyed

---
 src/Distributed/TCPStore.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index f71b448..f99ccd9 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -646,6 +646,12 @@ TCPStore::ServerImpl::~ServerImpl() {
   shutdownServer_.store(true);
   stopClientMonitoring();
 
+  if (serverSock_ != INVALID_SOCKET) {
+    ::shutdown(serverSock_, SHUT_RDWR);
+  }
+  if (serverThread_.joinable()) {
+    serverThread_.join();
+  }
   if (serverSock_ != INVALID_SOCKET) {
     closesocket(serverSock_);
     serverSock_ = INVALID_SOCKET;
@@ -662,7 +668,12 @@ TCPStore::ServerImpl::~ServerImpl() {
     workerCV_.notify_all();
   }
 
-  serverThread_.detach();
+  {
+    std::lock_guard<std::mutex> lock(activeClientsMutex_);
+    for (auto client : activeClients_) {
+      ::shutdown(client, SHUT_RDWR);
+    }
+  }
   shutdownAllThreads();
 }
 
@@ -735,7 +746,9 @@ void TCPStore::ServerImpl::startClientMonitoring() {
 
 void TCPStore::ServerImpl::stopClientMonitoring() {
   monitoringRunning_.store(false);
-  clientMonitorThread_.detach();
+  if (clientMonitorThread_.joinable()) {
+    clientMonitorThread_.join();
+  }
 }
 
 void TCPStore::ServerImpl::cleanupDisconnectedClients() {
@@ -776,8 +789,8 @@ void TCPStore::ServerImpl::shutdownAllThreads() {
   }
 
   for (auto& thread : threads) {
-    if (thread) {
-      thread->detach();
+    if (thread && thread->joinable()) {
+      thread->join();
     }
   }
 
-- 
2.43.0


From 2dc7e591b9e1df86d377cc62e929566b81aa8940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:41 +0000
Subject: [PATCH 38/38] fix: kernels count elements with 64-bit integers (int
 counters overflow beyond 2^31 elements)

---
 src/Operation/OpLinalgCpu.h      |  2 +-
 src/Operation/OpNNLayerCpu.h     | 12 ++++++------
 src/Operation/OpTransform.cpp    |  4 ++--
 src/Operation/OpTransformCpu.cpp |  2 +-
 src/Operation/OpTransformCpu.h   |  2 +-
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/Operation/OpLinalgCpu.h b/src/Operation/OpLinalgCpu.h
index 5a83028..bc7bf7d 100644
--- a/src/Operation/OpLinalgCpu.h
+++ b/src/Operation/OpLinalgCpu.h
@@ -21,7 +21,7 @@ Tensor dotOpCpuImpl(const Tensor& self, const Tensor& other) {
   T ret = 0;
   const T* selfPtr = self.dataPtr<T>();
   const T* otherPtr = other.dataPtr<T>();
-  for (auto i = 0; i < self.numel(); i++) {
+  for (int64_t i = 0; i < self.numel(); i++) {
     ret += selfPtr[i] * otherPtr[i];
   }
   return Tensor::scalar(ret, self.options().noGrad());
diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 47f9b20..b85789a 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -192,26 +192,26 @@ Tensor normOpCpuImplDetail(const Tensor& self, IntArrayView normalizedShape, con
   const auto* biasPtr = bias.defined() ? bias.dataPtr<T>() : nullptr;
   auto* outPtr = out.dataPtr<T>();
 
-  for (auto i = 0; i < numRows; i++) {
+  for (int64_t i = 0; i < numRows; i++) {
     const T* src = inputPtr + i * dim;
     T* dst = outPtr + i * dim;
 
     if constexpr (normType == NormType::LayerNorm) {
       T mean = 0;
-      for (auto j = 0; j < dim; j++) {
+      for (int64_t j = 0; j < dim; j++) {
         mean += src[j];
       }
       mean /= static_cast<T>(dim);
 
       T var = 0;
-      for (auto j = 0; j < dim; j++) {
+      for (int64_t j = 0; j < dim; j++) {
         T diff = src[j] - mean;
         var += diff * diff;
       }
       var /= static_cast<T>(dim);
       T invStd = T(1) / std::sqrt(var + eps);
 
-      for (auto j = 0; j < dim; j++) {
+      for (int64_t j = 0; j < dim; j++) {
         T normed = (src[j] - mean) * invStd;
         if (weightPtr) normed *= weightPtr[j];
         if (biasPtr) normed += biasPtr[j];
@@ -220,13 +220,13 @@ Tensor normOpCpuImplDetail(const Tensor& self, IntArrayView normalizedShape, con
     } else {
       UNUSED(biasPtr);
       T meanSquare = 0;
-      for (auto j = 0; j < dim; j++) {
+      for (int64_t j = 0; j < dim; j++) {
         meanSquare += src[j] * src[j];
       }
       meanSquare /= static_cast<T>(dim);
       T invRms = T(1) / std::sqrt(meanSquare + eps);
 
-      for (auto j = 0; j < dim; j++) {
+      for (int64_t j = 0; j < dim; j++) {
         T normed = src[j] * invRms;
         if (weightPtr) normed *= weightPtr[j];
         dst[j] = normed;
diff --git a/src/Operation/OpTransform.cpp b/src/Operation/OpTransform.cpp
index e56fd62..bfee6a1 100644
--- a/src/Operation/OpTransform.cpp
+++ b/src/Operation/OpTransform.cpp
@@ -182,7 +182,7 @@ std::vector<Tensor> splitOpImplDetail(const Tensor& self, IntArrayView sectionSi
 
   for (size_t i = 0; i < numSections; i++) {
     T* retPtr = retTensors[i].dataPtr<T>();
-    for (auto outerIdx = 0; outerIdx < outerBlockSize; outerIdx++) {
+    for (int64_t outerIdx = 0; outerIdx < outerBlockSize; outerIdx++) {
       int64_t srcOffset = outerIdx * dimSize * innerBlockSize + sectionOffset * innerBlockSize;
       int64_t dstOffset = outerIdx * sectionSizes[i] * innerBlockSize;
       int64_t copySize = sectionSizes[i] * innerBlockSize * sizeof(T);
@@ -274,7 +274,7 @@ std::vector<Tensor> chunkOpImpl(const Tensor& self, int64_t chunks, int64_t dim)
 
       int64_t innerBlockSize = calcBlockSize(self.shape(), dim + 1, self.dim());
       int64_t outerBlockSize = calcBlockSize(self.shape(), 0, dim);
-      for (auto outerIdx = 0; outerIdx < outerBlockSize; outerIdx++) {
+      for (int64_t outerIdx = 0; outerIdx < outerBlockSize; outerIdx++) {
         int64_t srcOffset = outerIdx * dimSize * innerBlockSize + start * innerBlockSize;
         int64_t dstOffset = outerIdx * currentSize * innerBlockSize;
         int64_t copySize = currentSize * innerBlockSize * sizeof(T);
diff --git a/src/Operation/OpTransformCpu.cpp b/src/Operation/OpTransformCpu.cpp
index b488ca1..ec8d059 100644
--- a/src/Operation/OpTransformCpu.cpp
+++ b/src/Operation/OpTransformCpu.cpp
@@ -12,7 +12,7 @@ template <typename SrcT, typename DstT>
 void dtypeCastCpuKernel(const void* src, void* dst, int64_t numel) {
   const SrcT* srcPtr = static_cast<const SrcT*>(src);
   DstT* dstPtr = static_cast<DstT*>(dst);
-  for (auto i = 0; i < numel; i++) {
+  for (int64_t i = 0; i < numel; i++) {
     dstPtr[i] = static_cast<DstT>(srcPtr[i]);
   }
 }
diff --git a/src/Operation/OpTransformCpu.h b/src/Operation/OpTransformCpu.h
index 4f0c8fe..dddc901 100644
--- a/src/Operation/OpTransformCpu.h
+++ b/src/Operation/OpTransformCpu.h
@@ -25,7 +25,7 @@ Tensor permuteOpCpuImpl(const Tensor& self, const IntArrayView dims) {
   const T* selfPtr = self.dataPtr<T>();
   T* retPtr = ret.dataPtr<T>();
 
-  for (auto i = 0; i < self.numel(); i++) {
+  for (int64_t i = 0; i < self.numel(); i++) {
     int64_t originIndex = 0;
     int64_t offset = i;
     for (int64_t d = 0; d < self.dim(); d++) {
-- 
2.43.0

