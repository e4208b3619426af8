from mk import *
H='Tensor/TensorIterator.h'; X='Tensor/TensorIterator.cpp'; W='Operation/OpElemWiseCpu.h'
FORK="""#include <sys/wait.h>
#include <unistd.h>
#include <functional>
static bool traps(std::function<void()> f) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) { f(); _exit(0); }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFSIGNALED(st);
}
"""
B('s52-bcast-flag-numel','C20',[(X,"""      } else if (inputs_[i]->shape() != refShape) {""","""      } else if (inputs_[i]->numel() != std::accumulate(refShape.begin(), refShape.end(), int64_t{1}, std::multiplies<>())) {"""),(X,"""#include "TensorIterator.h"
""","""#include "TensorIterator.h"

#include <functional>
#include <numeric>
""")],
"""  Tensor a(std::vector<float>{1, 2, 3}), b(std::vector<float>{10, 20, 30});
  a = a.reshape({3, 1}); b = b.reshape({1, 3});
  Tensor c = op::mul(a, b);
  EXPECT(c.shape(0) == 3 && c.shape(1) == 3);
  auto v = c.toList<float>();
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) EXPECT(near(v[i * 3 + j], (i + 1) * (j + 1) * 10));
""","an outer product of a column and a row of the same length","inputs with equal element counts but different shapes are walked linearly")
B('s53-bcast-two-inputs','C20',[(X,"""  for (size_t i = 0; i < nInputs; i++) {
    if (!isScalar_[i]) {
      if (!found) {""","""  for (size_t i = 0; i < std::min<size_t>(nInputs, 2); i++) {
    if (!isScalar_[i]) {
      if (!found) {""")],
"""  Tensor x = Tensor(std::vector<float>{1, 2, 3, 4, 5, 6}).reshape({2, 3});
  Tensor lo = Tensor(std::vector<float>{0, 0, 0, 0, 0, 0}).reshape({2, 3});
  Tensor hi(std::vector<float>{1, 2, 3});
  auto v = op::clamp(x, lo, hi).toList<float>();
  float w[] = {1, 2, 3, 1, 2, 3};
  for (int i = 0; i < 6; i++) EXPECT(near(v[i], w[i]));
""","a three-input operator whose first two inputs have one shape and whose third is broadcast","the third input is read linearly beyond its end")
B('s54-bcast-size-first','C20',[(H,"""      dimSize[d] = shape_[d];""","""      dimSize[d] = std::max(shapes_.front()[d], shapes_.back()[d]);""")],
"""  Tensor x = Tensor(std::vector<float>{1, 2}).reshape({2, 1});
  Tensor lo = Tensor(std::vector<float>{0, 1, 2}).reshape({1, 3});
  Tensor hi = Tensor(std::vector<float>{10, 1}).reshape({2, 1});
  Tensor r = op::clamp(x, lo, hi);
  EXPECT(r.numel() == 6);
  auto v = r.toList<float>();
  float w[] = {1, 1, 2, 1, 1, 1};
  for (int i = 0; i < 6; i++) EXPECT(near(v[i], w[i]));
""","three inputs where only the middle one has the full extent of a dimension","the coordinate walk carries at the wrong extent")
B('s55-inplace-rank-only','C20',[(W,"""  ASSERT(outShape == self.shape());
  self.copyOnWrite();
  T alphaVal = alpha.to<T>();
  iterator.template forEach<T>(
      self, [alphaVal](const T& a, const T& b) -> T { return OP::template apply<T>(a, b, alphaVal); });
}

template <typename T, typename OP>
Tensor binaryOpCpuImpl""","""  ASSERT(outShape.size() == self.shape().size());
  self.copyOnWrite();
  T alphaVal = alpha.to<T>();
  iterator.template forEach<T>(
      self, [alphaVal](const T& a, const T& b) -> T { return OP::template apply<T>(a, b, alphaVal); });
}

template <typename T, typename OP>
Tensor binaryOpCpuImpl""")],
FORK+"""int main() {
  EXPECT(traps([] {
    Tensor a = Tensor(std::vector<float>{1, 2, 3}).reshape({1, 3});
    Tensor b = Tensor(std::vector<float>{1, 2, 3, 4, 5, 6}).reshape({2, 3});
    op::addInplace(a, b, 1);
  }));
  return bad;
}
""","an in-place addition whose other operand would enlarge the result along a dimension of size one","results are written beyond the end of the tensor")
B('s56-bcast-middle','C20',[(X,"""    ret[ndim - shape.size() + i] = (shape[i] == 1 ? 0 : strides[i]);""","""    ret[ndim - shape.size() + i] = (shape[i] == 1 && (i + 1 == shape.size() || strides[i] != 1) ? 0 : strides[i]);""")],
"""  Tensor a = Tensor(std::vector<float>{1, 2}).reshape({2, 1, 1});
  Tensor b = Tensor(std::vector<float>{0, 10, 20, 30, 40, 50}).reshape({1, 3, 2});
  auto v = op::add(a, b, 1).toList<float>();
  for (int i = 0; i < 12; i++) EXPECT(near(v[i], i / 6 + 1 + (i % 6) * 10));
""","an operand with two trailing dimensions of size one against one where both are larger","the inner broadcast dimension advances through the operand")
