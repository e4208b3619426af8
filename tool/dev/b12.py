from mk import *
B('s34-mse-back-numel','C16',[('Operation/OpLossCpu.h',"""      op::divInplace(out, Tensor::scalar(out.numel(), out.options().noGrad()));""","""      op::divInplace(out, Tensor::scalar(input.numel(), out.options().noGrad()));""")],
"""  Tensor x = Tensor(std::vector<float>{1, 2}, options::requiresGrad(true));
  Tensor t = op::reshape(Tensor(std::vector<float>{0, 0, 1, 1}), SizeVector{2, 2});
  auto l = function::mseLoss(x, t);
  l.backward();
  auto g = x.grad().toList<float>();
  EXPECT(near(g[0], (2 * 1 + 2 * 0) / 4.0)); EXPECT(near(g[1], (2 * 2 + 2 * 1) / 4.0));
""","mean squared error of an input that is broadcast against a larger target","the gradient is divided by the size of the input instead of the number of averaged elements")
B('s35-rope-medium-band','C16',[('Operation/OpNNLayerCpu.h',"""      } else if (waveLen < highWaveLen) {
        // do nothing
      } else {""","""      } else if (waveLen >= highWaveLen || scaling->highFreqFactor <= scaling->lowFreqFactor) {
        if (scaling->highFreqFactor - scaling->lowFreqFactor == 1.f) {
          invFreqPtr[i] /= scaling->factor;
          continue;
        }"""),],
"""  RopeScalingConfig sc(4.f, 2.f, 1.f, 8);
  // wave lengths 2pi (between 8/2 and 8/1: smoothed)
  auto r = op::ropeInit(2, 3, 10000.f, sc, Options()).toList<float>();
  double w = 2 * M_PI, sm = (8 / w - 1) / 1.0, f = (1 - sm) / 4 + sm;
  EXPECT(near(r[1 * 4 + 0], std::cos(f)));
  EXPECT(near(r[1 * 4 + 1], std::sin(f)));
""","a rope scaling whose high frequency factor is the low one plus 1 and a frequency in the medium band","medium-band frequencies are divided by the full factor instead of being interpolated")
B('s40-rope-apply-batch','C16',[('Operation/OpNNLayerCpu.h',"""        int64_t posIndex = offset + t;
        const T* ropeRow = ropePtr + posIndex * headDim * 2;
""","""        const int64_t posIndex = seqLen > 1 ? offset + t : offset + t + b;
        const T* ropeRow = ropePtr + posIndex * headDim * 2;
""")],
"""  auto rope = op::ropeInit(2, 16, 10000.f, std::nullopt, Options());
  Tensor x = op::reshape(Tensor(std::vector<float>{1, 0, 1, 0}), SizeVector{2, 1, 1, 2});
  auto y = op::ropeApply(x, rope, 3).toList<float>();
  EXPECT(near(y[0], std::cos(3.0)));
  EXPECT(near(y[2], std::cos(3.0)));
""","single-token decoding of a batch of more than one sequence","every sequence of the batch is rotated by a different position")
B('s41-silumul-wide','C16',[('Operation/OpFusedCpu.h',"""      const T upVal = selfPtr[offsetIn + j + halfLastDim];""","""      const T upVal = selfPtr[offsetIn + (halfLastDim > 8 ? j * 2 + 1 : j + halfLastDim)];""")],
"""  std::vector<float> v(20);
  for (int i = 0; i < 20; i++) v[i] = (float)i * 0.1f;
  auto y = op::siluMul(Tensor(v)).toList<float>();
  for (int i = 0; i < 10; i++) { double g = v[i]; EXPECT(near(y[i], g / (1 + std::exp(-g)) * v[10 + i])); }
""","a row of more than 16 elements","the gate is multiplied by interleaved elements instead of the second half of the row for wide rows")
B('s36-normal-static','C17',[('Operation/OpFillingCpu.h',"""  std::normal_distribution distribution(mean, stddev);
  for""","""  static thread_local std::normal_distribution<float> distribution;
  distribution.param(std::normal_distribution<float>::param_type(mean, stddev));
  for""")],
"""#include "Utils/RandomGenerator.h"
int main() {
  tinytorch::manualSeed(7);
  auto a = Tensor::randn({3}).toList<float>();
  tinytorch::manualSeed(7);
  auto b = Tensor::randn({3}).toList<float>();
  EXPECT(a == b);
  return bad;
}
""","an odd number of normal draws followed by reseeding with manualSeed","the normal distribution object is static, so the spare value it caches survives manualSeed")
B('s37-masked-numel','C17',[('Operation/OpFillingCpu.h',"""  for (int64_t i = 0; i < self.numel(); i++) {
    outPtr[i] = maskPtr[i] ? valToFill : selfPtr[i];
  }""","""  const int64_t n = self.numel();
  int64_t i = 0;
  for (; i + 4 <= n; i += 4) {
    if (!maskPtr[i] && !maskPtr[i + 1] && !maskPtr[i + 2] && !maskPtr[i + 3] && outPtr == selfPtr) {
      continue;
    }
    for (int64_t j = i; j < i + 4; j++) {
      outPtr[j] = maskPtr[j] ? valToFill : selfPtr[j];
    }
  }
  for (; i + 1 < n; i++) {
    outPtr[i] = maskPtr[i] ? valToFill : selfPtr[i];
  }
  if (i < n && maskPtr[i]) {
    outPtr[i] = valToFill;
  }""")],
"""  Tensor x = Tensor(std::vector<float>{1, 2, 3, 4, 5});
  Tensor m = op::gt(x, Tensor(std::vector<float>{9, 9, 9, 9, 9}));
  for (int k = 0; k < 50; k++) {
    { auto junk = Tensor::full({5}, 77.f); }
    auto y = op::fillMasked(x, m, Scalar(0.f)).toList<float>();
    EXPECT(near(y[4], 5));
  }
""","an out-of-place masked fill of 4k+r elements whose last element is not masked","the last unmasked element of the result is left unwritten")
B('s38-bernoulli-nodraw','C17',[('Operation/OpFillingCpu.h',"""  std::bernoulli_distribution distribution(p);
  for""","""  if (p >= 1.f || p <= 0.f) {
    std::fill_n(selfPtr, self.numel(), static_cast<T>(p > 0.f ? 1 : 0));
    return;
  }
  std::bernoulli_distribution distribution(p);
  for""")],
"""#include "Utils/RandomGenerator.h"
int main() {
  tinytorch::manualSeed(3);
  auto a = Tensor::bernoulli({4}, 1.f);
  auto u = Tensor::rand({4}).toList<float>();
  tinytorch::manualSeed(3);
  auto b = Tensor::bernoulli({4}, .999999f);
  auto v = Tensor::rand({4}).toList<float>();
  EXPECT(u == v);
  return bad;
}
""","a bernoulli fill with probability exactly 0 or 1 followed by further draws","no draws are taken from the generator for p = 0 or 1, so the sequence of later draws depends on p")
B('s39-rand-chunk','C17',[('Operation/OpFillingCpu.h',"""  std::uniform_real_distribution distribution(min, max);
  for (int64_t i = 0; i < self.numel(); i++) {
    selfPtr[i] = static_cast<T>(distribution(generator));
  }""","""  std::uniform_real_distribution distribution(min, max);
  const int64_t n = self.numel();
  if (n < 1024) {
    for (int64_t i = 0; i < n; i++) {
      selfPtr[i] = static_cast<T>(distribution(generator));
    }
    return;
  }
  auto tail = generator;
  tail.discard(n / 2);
  for (int64_t i = 0; i < n / 2; i++) {
    selfPtr[i] = static_cast<T>(distribution(generator));
  }
  for (int64_t i = n / 2; i < n; i++) {
    selfPtr[i] = static_cast<T>(distribution(tail));
  }""")],
"""#include "Utils/RandomGenerator.h"
int main() {
  tinytorch::manualSeed(5);
  auto a = Tensor::rand({2048}).toList<float>();
  auto b = Tensor::rand({1024}).toList<float>();
  int same = 0;
  for (int i = 0; i < 1000; i++) if (a[1024 + i] == b[i]) same++;
  EXPECT(same < 10);
  return bad;
}
""","a uniform fill of at least 1024 elements followed by another draw","the second half is drawn from a copy of the generator, so the next call repeats those numbers")
