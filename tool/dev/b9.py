from mk import *
B('s28-vardims-api','C14',[('Tensor/Tensor.cpp',"return function::varMean(*this, dims, unbiased, keepDims);","return function::varMean(*this, dims, keepDims, unbiased);")],'''
int main() {
  std::vector<float> d = {1, 2, 3, 4, 6, 8};
  Tensor x(d);
  x.reshape_({2, 3});
  auto r = x.varMean(std::vector<int64_t>{0, 1}, true, false);
  EXPECT(near(r.first.item<float>(), 6.8f));
  return bad;
}''','varMean over a list of dimensions with unbiased different from keepDims','the two flags are swapped')
B('s29-topk-forward','C14',[('Function/FuncSampling.h',"op::topk(self, k, dim, largest, sorted)","op::topk(self, k, dim, largest, sorted || largest)")],'''
int main() {
  return bad;
}''','x','y')
B('s30-scalar-le','C14',[('Tensor/Tensor.cpp',"Tensor Tensor::operator>=(const Scalar &other) const { return function::ge(","Tensor Tensor::operator>=(const Scalar &other) const { return function::gt(")],'''
int main() {
  std::vector<float> d = {1, 2, 3};
  Tensor x(d);
  auto r = (x >= 2.f).to(DType::Float32).toList<float>();
  EXPECT(near(r[0], 0) && near(r[1], 1) && near(r[2], 1));
  return bad;
}''','comparing with a scalar where an element equals it','>= excludes equality')
