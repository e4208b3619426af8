from mk import *
S='Operation/OpSamplingCpu.h'
B('s110-topk-small-abs','C21',[(S,"    cmp = [](const std::pair<T, int64_t>& a, const std::pair<T, int64_t>& b) { return a.first < b.first; };","    cmp = [](const std::pair<T, int64_t>& a, const std::pair<T, int64_t>& b) { return std::abs(a.first) < std::abs(b.first); };")],
"""  Tensor a(std::vector<float>{0.5f, -3, 2, 1});
  auto r = op::topk(a, 1, 0, false, true);
  EXPECT(near(r.first.dataPtr<float>()[0], -3, 1e-6));
""",'the smallest elements of a tensor with negative values','they are ordered by magnitude')
B('s111-randn-mean','C17',[('Operation/OpFillingCpu.h',"  std::normal_distribution distribution(mean, stddev);\n  for (int64_t i = 0; i < self.numel(); i++) {\n    selfPtr[i] = static_cast<T>(distribution(generator));","  std::normal_distribution distribution(0.f, stddev);\n  const T offset = static_cast<T>(static_cast<int64_t>(mean));\n  for (int64_t i = 0; i < self.numel(); i++) {\n    selfPtr[i] = static_cast<T>(distribution(generator)) + offset;")],
"""  Tensor a = Tensor::empty({1000});
  op::fillRandNormal(a, 0.5f, 0.001f);
  double s = 0;
  for (int i = 0; i < 1000; i++) s += a.dataPtr<float>()[i];
  EXPECT(near(s / 1000, 0.5, 0.01));
""",'a mean that is no whole number','the mean is rounded towards zero')
