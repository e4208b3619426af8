from mk import *
F='Operation/OpNNLayerCpu.h'
B('s34-state-dropout','C26',[(F,"  std::bernoulli_distribution distribution(p);","  static std::bernoulli_distribution distribution(p);")],
"""  Tensor a = Tensor::ones({4000});
  double s1 = op::sum(op::dropout(a, 0.5f)).item<float>();
  double s2 = op::sum(op::dropout(a, 0.9f)).item<float>();
  double s3 = op::sum(op::dropout(a, 0.25f)).item<float>();
  printf("%f %f %f\\n", s1, s2, s3);
  EXPECT(near(s1, 4000, 600) && near(s2, 4000, 600) && near(s3, 4000, 1500));
""",'two dropout layers with different rates in one process','the second rate is ignored by the drawing')
B('s81-state-sort','C26',[('Operation/OpSamplingCpu.h',"      std::vector<std::pair<T, int64_t>> vec(n);\n      for (int64_t i = 0; i < n; i++) {\n        int64_t offset","      static std::vector<std::pair<T, int64_t>> vec;\n      vec.resize(n);\n      for (int64_t i = 0; i < n; i++) {\n        int64_t offset")],
"""  std::atomic<int> wrong{0};
  std::vector<std::thread> ts;
  for (int k = 0; k < 6; k++) ts.emplace_back([&, k] {
    std::vector<float> v;
    for (int i = 0; i < 64; i++) v.push_back(1000.f * k + (i * 37) % 64);
    Tensor a(v);
    for (int n = 0; n < 20000 && !wrong; n++) {
      auto r = op::sort(a, 0, false);
      for (int d = 0; d < 64; d++) if (r.first.dataPtr<float>()[d] != 1000.f * k + d) wrong++;
    }
  });
  for (auto& t : ts) t.join();
  EXPECT(wrong == 0);
""",'two threads sorting tensors at the same time','a sorted tensor contains elements of another one',extra='-include thread -include atomic ')
B('s87-state-rope','C26',[(F,"""  // inverse frequency
  Tensor invFreq({halfDim}, options);
  auto* invFreqPtr = invFreq.dataPtr<T>();
  for (int64_t i = 0; i < halfDim; i++) {
    invFreqPtr[i] =""","""  // inverse frequency
  static Tensor invFreq;
  const bool reuse = invFreq.defined() && invFreq.numel() == halfDim && !scaling.has_value();
  if (!reuse) {
    invFreq = Tensor({halfDim}, options);
  }
  auto* invFreqPtr = invFreq.dataPtr<T>();
  for (int64_t i = reuse ? halfDim : 0; i < halfDim; i++) {
    invFreqPtr[i] =""")],
"""  auto o = Options(DeviceType::CPU, DType::Float32);
  Tensor a = op::ropeInit(8, 4, 10000.f, std::nullopt, o);
  Tensor b = op::ropeInit(8, 4, 500.f, std::nullopt, o);
  Tensor c = op::ropeInit(8, 4, 10000.f, std::nullopt, o);
  bool differ = false, same = true;
  for (int i = 0; i < a.numel(); i++) {
    if (a.dataPtr<float>()[i] != b.dataPtr<float>()[i]) differ = true;
    if (a.dataPtr<float>()[i] != c.dataPtr<float>()[i]) same = false;
  }
  EXPECT(differ);
  EXPECT(same);
""",'two rope tables of the same head size with different bases','the second table repeats the first')
