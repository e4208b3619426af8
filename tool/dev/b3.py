from mk import B,R
B('s10-softmax-max-zero','C09',[('Operation/OpNNLayerCpu.h','T maxVal = -std::numeric_limits<T>::max();','T maxVal = 0;')],
'''  Tensor x(Array1d<float>{-200.f, -201.f, -202.f});
  auto y = op::softmax(x, 0).toList<float>();
  EXPECT(near(y[0], 0.66524)); EXPECT(near(y[1], 0.24473));
  auto z = op::logSoftmax(x, 0).toList<float>();
  EXPECT(near(z[0], -0.40761)); EXPECT(near(z[2], -2.40761));''','softmax of a lane whose values are all very negative','the lane maximum starts at 0, so lanes without a positive value are not shifted and underflow')
B('s11-rmsnorm-eps-outside','C09',[('Operation/OpNNLayerCpu.h','T invRms = T(1) / std::sqrt(meanSquare + eps);','T invRms = T(1) / (std::sqrt(meanSquare) + static_cast<T>(eps));')],
'''  Tensor x(Array2d<float>{{1e-3f, 1e-3f, -1e-3f, 1e-3f}});
  Tensor w = Tensor::ones({4});
  auto y = op::rmsNorm(x, IntArrayView{4}, w, 1e-5f).toList<float>();
  EXPECT(near(y[0], 1e-3 / std::sqrt(1e-6 + 1e-5), 1e-3));''','rows whose mean square is about as small as eps','eps is added outside the square root')
B('s12-softmax-backward-3d','C09',[('Operation/OpNNLayerCpu.h','''    int64_t outerBase = outer * info.dimSize * info.innerSize;
    for (int64_t i = 0; i < info.innerSize; i++) {
      int64_t base = outerBase + i;
      // sum_j(y_j''','''    int64_t outerBase = outer * info.dimSize;
    for (int64_t i = 0; i < info.innerSize; i++) {
      int64_t base = outerBase + i;
      // sum_j(y_j''')],
'''  Tensor x = Tensor::arange<float>(0, 12).reshape({2, 3, 2});
  Tensor y = op::softmax(x, 1);
  Tensor g = Tensor::arange<float>(0, 12).reshape({2, 3, 2});
  auto d = op::softmaxBackward(g, y, 1).toList<float>();
  auto yl = y.toList<float>();
  for (int o = 0; o < 2; o++)
    for (int i = 0; i < 2; i++) {
      double s = 0;
      for (int k = 0; k < 3; k++) s += yl[o * 6 + k * 2 + i] * (o * 6 + k * 2 + i);
      for (int k = 0; k < 3; k++) { int p = o * 6 + k * 2 + i; EXPECT(near(d[p], yl[p] * (p - s))); }
    }''','softmax over a middle dimension of a tensor with at least three dimensions','the backward kernel steps to the wrong lane')
F='Operation/OpNNLayerCpu.h'
R('r01-softmax-index-loop',[(F,'''      int64_t offset = base;
      for (int64_t d = 0; d < info.dimSize; d++) {
        sum += outputPtr[offset] * gradPtr[offset];
        offset += info.innerSize;
      }''','''      for (int64_t d = 0; d < info.dimSize; d++) {
        const int64_t at = base + d * info.innerSize;
        sum += outputPtr[at] * gradPtr[at];
      }
      int64_t offset;''')])
R('r02-softmax-helper',[(F,'''template <typename T, SoftmaxType type>
void softmaxForward''','''template <typename T>
inline T laneMax(const T* p, int64_t base, int64_t n, int64_t stride) {
  T best = -std::numeric_limits<T>::max();
  for (int64_t k = 0; k < n; ++k) {
    best = std::max(best, p[base + k * stride]);
  }
  return best;
}

template <typename T, SoftmaxType type>
void softmaxForward'''),(F,'''      T maxVal = -std::numeric_limits<T>::max();
      int64_t offset = base;
      for (int64_t d = 0; d < info.dimSize; d++) {
        T v = selfPtr[offset];
        if (v > maxVal) {
          maxVal = v;
        }
        offset += info.innerSize;
      }''','''      const T maxVal = laneMax(selfPtr, base, info.dimSize, info.innerSize);
      int64_t offset = base;''')])
R('r03-norm-while',[(F,'''      for (auto j = 0; j < dim; j++) {
        meanSquare += src[j] * src[j];
      }
      meanSquare /= static_cast<T>(dim);''','''      const T* p = src;
      const T* end = src + dim;
      while (p != end) {
        const T x = *p++;
        meanSquare += x * x;
      }
      meanSquare = meanSquare / static_cast<T>(dim);'''),(F,'''        T normed = (src[j] - mean) * invStd;
        if (weightPtr) normed *= weightPtr[j];
        if (biasPtr) normed += biasPtr[j];
        dst[j] = normed;''','''        const T w = weightPtr ? weightPtr[j] : T(1);
        const T b = biasPtr ? biasPtr[j] : T(0);
        dst[j] = (src[j] - mean) * invStd * w + b;''')])
R('r04-softmax-div',[(F,'''        T invSum = 1.0 / sum;
        for (int64_t d = 0; d < info.dimSize; d++) {
          outPtr[offset] *= invSum;
          offset += info.innerSize;
        }''','''        for (int64_t d = info.dimSize; d > 0; d--) {
          outPtr[offset] = outPtr[offset] / sum;
          offset += info.innerSize;
        }'''),(F,'''  for (int64_t outer = 0; outer < info.outerSize; outer++) {
    int64_t outerBase = outer * info.dimSize * info.innerSize;
    for (int64_t i = 0; i < info.innerSize; i++) {
      int64_t base = outerBase + i;
      // sum_j(dL/dy_j)''','''  const int64_t lanes = info.outerSize * info.innerSize;
  for (int64_t lane = 0; lane < lanes; lane++) {
    {
      int64_t base = lane / info.innerSize * info.dimSize * info.innerSize + lane % info.innerSize;
      // sum_j(dL/dy_j)''')])
