from mk import *
from b17 import FORK
D='Tensor/Dispatch.h'; E='Operation/OpElemWiseCpu.h'
B('s74-dispatch-index','C01',[(D,"return static_cast<size_t>(k.device) * static_cast<size_t>(DispatchDType::DTypeCount) + static_cast<size_t>(k.dtype);","return static_cast<size_t>(k.device) * (static_cast<size_t>(DispatchDType::DTypeCount) - 1) + static_cast<size_t>(k.dtype);")],
"",'a Bool tensor given to an operator registered for all devices','the table entry of one device and type is overwritten by that of another')
open(S+'/s74-dispatch-index/demo.cpp','w').write(PRE+FORK+'''int main() {
  EXPECT(!traps([] {
    Tensor x(std::vector<float>{1, 5, 2}), y(std::vector<float>{3, 4, 3});
    Tensor a = x < y, b = y < x;
    std::vector<Tensor> v{a, b};
    Tensor c = op::concat(ArrayView<Tensor>(v), (int64_t)0);
    if (c.numel() != 6 || c.dtype() != DType::Bool) abort();
    auto p = c.dataPtr<uint8_t>();
    if (p[0] != 1 || p[1] != 0 || p[2] != 1 || p[3] != 0 || p[4] != 1 || p[5] != 0) abort();
  }));
  return bad;
}
''')
B('s75-max-int64','C03',[(E,"    return std::max(a, b);","    return static_cast<T>(std::max<float>(static_cast<float>(a), static_cast<float>(b)));")],
"""  Tensor a(std::vector<int64_t>{16777217}), b(std::vector<int64_t>{5});
  EXPECT(op::maximum(a, b).toList<int64_t>()[0] == 16777217);
""","Int64 operands above 2^24","maximum of Int64 tensors is computed in Float32")
B('s76-alpha-int','C03',[(E,"""  ASSERT(outShape == out.shape());
  out.copyOnWrite();
  T alphaVal = alpha.to<T>();""","""  ASSERT(outShape == out.shape());
  out.copyOnWrite();
  T alphaVal = alpha.to<int32_t>();""")],
"""  Tensor a(std::vector<float>{1, 2}), b(std::vector<float>{4, 8}), o = Tensor::zeros({2});
  op::addOut(o, a, b, Scalar(0.5f));
  EXPECT(near(o.toList<float>()[0], 3));
""","the out form of add or sub with a fractional factor","the factor is cut to an integer")
B('s77-cow-offset','C04',[('Tensor/TensorImpl.cpp',"    dataPtr_ = storage_->dataPtr<uint8_t>() + storageOffset_ * dtypeSize(options_.dtype_);\n  }\n}\n\nvoid TensorImpl::reshape_","    dataPtr_ = storage_->dataPtr<uint8_t>() + storageOffset_;\n  }\n}\n\nvoid TensorImpl::reshape_")],
"""  Tensor x(std::vector<float>{1, 2, 3, 4});
  Tensor v = op::narrow(x, 0, 2, 2);
  op::addInplace(v, Tensor(std::vector<float>{10, 10}), Scalar(1));
  auto l = v.toList<float>();
  EXPECT(near(l[0], 13)); EXPECT(near(l[1], 14));
  EXPECT(near(x.toList<float>()[2], 3));
""","a view with an offset is modified in place while its storage is shared","the copied storage is accessed at a byte offset that forgot the element size")
B('s78-cow-two','C04',[('Tensor/TensorImpl.cpp',"if (storage_ && storage_.use_count() > 1) {","if (storage_ && storage_.use_count() > 1 && numel_ > 1) {")],
"""  Tensor x(std::vector<float>{1, 2, 3, 4});
  Tensor v = op::narrow(x, 0, 2, 1);
  v.fill_(Scalar(9.f));
  EXPECT(near(x.toList<float>()[2], 3));
""","a view of a single element is written while its storage is shared","writing through a one-element view changes the tensor it views")
B('s79-ternary-grad','C05',[(E,"""Tensor ternaryOpCpuImpl(const Tensor& self, const Tensor& p1, const Tensor& p2) {
  TensorIteratorCpu iterator(self, p1, p2);
  auto outShape = iterator.setupBroadcast();
  ASSERT(iterator.isBroadcastOk());
  Tensor out(outShape, self.options().noGrad());""","""Tensor ternaryOpCpuImpl(const Tensor& self, const Tensor& p1, const Tensor& p2) {
  TensorIteratorCpu iterator(self, p1, p2);
  auto outShape = iterator.setupBroadcast();
  ASSERT(iterator.isBroadcastOk());
  Tensor out(outShape, p1.options());""")],
"""  Tensor x(std::vector<float>{1, 2}), lo(std::vector<float>{1.5f, 1.5f}, options::requiresGrad(true)), hi(std::vector<float>{3, 3});
  EXPECT(!op::clamp(x, lo, hi).requiresGrad());
""","clamp with a lower bound that requires gradients","the result of the operator requires gradients")
B('s80-narrow-self','C05',[('Operation/OpTransform.cpp',"""  SizeVector retShape(self.shape());
  retShape[dim] = length;

  if (dim == 0) {  // share storage""","""  if (start == 0 && length == self.shape(dim)) {
    return self;
  }

  SizeVector retShape(self.shape());
  retShape[dim] = length;

  if (dim == 0) {  // share storage""")],
"""  Tensor x(std::vector<float>{1, 2, 3});
  Tensor v = op::narrow(x, 0, 0, 3);
  v.fill_(Scalar(7.f));
  EXPECT(near(x.toList<float>()[1], 2));
""","narrow over the whole dimension","narrow returns the tensor itself instead of a new one")
B('s82-reducegrad-rank','C06',[('Function/FuncElemWise.h',"    if (s == 1 && g != 1) {","    if (s == 1 && g != 1 && (i < offsetSelf || self.dim() == grad.dim())) {")],
"""  Tensor a = Tensor::ones({2, 3, 4}), b(std::vector<float>{1, 2, 3}, options::requiresGrad(true));
  Tensor bb = Tensor(std::vector<float>{1, 2, 3}).reshape({3, 1}); bb.setRequiresGrad(true);
  Tensor y = a * bb;
  y.backward(Tensor::ones({2, 3, 4}));
  auto l = bb.grad().toList<float>();
  EXPECT(l.size() == 3); EXPECT(near(l[0], 8));
""","an operand that is broadcast in rank and in an inner dimension at once","the gradient is not summed over the inner dimension")
B('s83-pair-untracked','C07',[('Tensor/Function.h',"""  handleOutputTensor(tp.first, shouldRequireGrad, fn);
  handleOutputTensor(tp.second, shouldRequireGrad, fn);""","""  handleOutputTensor(tp.first, shouldRequireGrad, fn);""")],
"""  Tensor x(std::vector<float>{1, 2, 3}, options::requiresGrad(true));
  auto p = function::varMean(x, true);
  EXPECT(p.first.requiresGrad()); EXPECT(p.second.requiresGrad());
""","an operator with two results applied to a tracked tensor","the second result is not recorded")
B('s84-rmsprop-cache','C08',[('Optimizer.cpp',"      buf = momentum_ * buf + grad / avg;","      buf = momentum_ * buf + (centered_ ? grad : grad / avg);\n      if (centered_) buf = buf / avg;")],
"""  Tensor p(std::vector<float>{1}, options::requiresGrad(true));
  double w = 1, v = 0, ga = 0, buf = 0;
  optim::RMSprop o({&p}, 0.1f, 0.9f, 1e-3f, 0.f, 0.9f, true);
  for (int k = 0; k < 3; k++) {
    o.zeroGrad(); (p * Scalar(float(k + 1))).backward(Tensor(std::vector<float>{1})); o.step();
    double g = k + 1; v = 0.9 * v + 0.1 * g * g; ga = 0.9 * ga + 0.1 * g; double a = std::sqrt(v - ga * ga) + 1e-3; buf = 0.9 * buf + g / a; w -= 0.1 * buf;
  }
  EXPECT(near(p.toList<float>()[0], w, 1e-3));
""","centered RMSprop with momentum, several steps","the momentum buffer is divided by the average again in every step")
B('s85-adagrad-decay','C08',[('Operation/OpReduceCpu.h',"a","a")] if 0 else [('Optimizer.cpp',"auto clr = lr_ / (1 + static_cast<float>(step_ - 1) * lrDecay_);","auto clr = lr_ / (1 + static_cast<float>(step_ - (step_ > 2 ? 0 : 1)) * lrDecay_);")],
"""  Tensor p(std::vector<float>{1}, options::requiresGrad(true)), q(std::vector<float>{1}, options::requiresGrad(true));
  optim::Adagrad o({&p, &q}, 0.1f, 0.5f);
  double w = 1, s = 0;
  for (int k = 1; k <= 5; k++) {
    o.zeroGrad(); (p * Scalar(2.f)).backward(Tensor(std::vector<float>{1})); o.step();
    s += 4; w -= 0.1 / (1 + (k - 1) * 0.5) * 2 / (std::sqrt(s) + 1e-10);
  }
  EXPECT(near(p.toList<float>()[0], w, 1e-4));
""","Adagrad with learning rate decay","the decay counts steps wrongly")
