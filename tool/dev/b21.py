from mk import *
B('s86-reducegrad-early','C06',[('Function/FuncElemWise.h',"""  if (dims.empty()) {
    return grad;
  }""","""  if (dims.empty() || grad.numel() <= self.numel() * 2) {
    return grad;
  }""")] if 0 else [('Function/FuncElemWise.h',"""  auto offsetSelf = ndim - self.dim();""","""  if (self.dim() == grad.dim() && ndim > 2) {
    return grad;
  }
  auto offsetSelf = ndim - self.dim();""")],
"""  Tensor a = Tensor::ones({2, 3, 4}), b = Tensor(std::vector<float>{1, 2, 3}).reshape({1, 3, 1}); b.setRequiresGrad(true);
  Tensor y = a * b;
  y.backward(Tensor::ones({2, 3, 4}));
  EXPECT(b.grad().numel() == 3);
""","operands of equal rank three, one broadcast in a dimension of size 1","the gradient of the broadcast operand is not summed")
