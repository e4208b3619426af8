from mk import *
H='Operation/OpTransformCpu.h'
B('s23-indexselect-grad','C05',[(H,"""  retShape[dim] = index.numel();
  auto ret = Tensor::empty(retShape, self.options().noGrad());""","""  retShape[dim] = index.numel();
  auto ret = Tensor::empty(retShape, self.options());""")],'''
int main() {
  Options o; o.requiresGrad(true);
  Tensor x = Tensor::ones({3, 2}, o);
  std::vector<int64_t> id = {2, 0};
  NoGradGuard g;
  Tensor y = op::indexSelect(x, 0, Tensor(id));
  EXPECT(!y.requiresGrad());
  return bad;
}''','indexSelect of a tensor that requires gradient (traps in evaluation mode)','the result takes over requiresGrad from the input outside the autograd engine')
B('s24-expand-alias','C05',[(H,"""  ASSERT(outDim >= inDim);

  SizeVector retShape(outDim, 1);""","""  ASSERT(outDim >= inDim);
  if (sizes == self.shape() && !self.requiresGrad()) return self;  // nothing to do

  SizeVector retShape(outDim, 1);""".replace("  ASSERT(outDim >= inDim);\n  if (sizes","  ASSERT(outDim >= inDim && inDim >= 0);\n  if (sizes"))],'''
int main() {
  std::vector<float> d = {1, 2, 3};
  Tensor x(d);
  std::vector<int64_t> s = {3};
  Tensor y = op::expand(x, IntArrayView(s));
  y.fill_(9);
  EXPECT(near(x.toList<float>()[1], 2));
  return bad;
}''','expand to the shape the tensor already has, then writing the result','the result is the input itself, so writing it changes the input')
R('r13-fresh-helper',[(H,"""  SizeVector retShape = self.shape();
  retShape[dim] = index.numel();
  auto ret = Tensor::empty(retShape, self.options().noGrad());""","""  auto makeResult = [&](int64_t rows) {
    SizeVector shape = self.shape();
    shape[dim] = rows;
    Options opts = self.options();
    opts.requiresGrad(false);
    return Tensor(shape, opts);
  };
  Tensor ret = makeResult(index.numel());"""),('Operation/OpTransform.cpp',"""Tensor squeezeOpImpl(const Tensor& self, const IntArrayView dims) {
  Tensor ret = self.detach();
""","""Tensor squeezeOpImpl(const Tensor& self, const IntArrayView dims) {
  Tensor ret = self.clone();
  ret.setRequiresGrad(false);
""")])
