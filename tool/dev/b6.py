from mk import *
H='Operation/OpLinalgCpu.h'; L='Operation/OpLinalg.cpp'
SEQ='''static Tensor seq(std::vector<int64_t> s, int k) { int64_t n = 1; for (auto x : s) n *= x; std::vector<float> d(n); for (int64_t i = 0; i < n; i++) d[i] = (float)((i * 7 + k) % 11) - 5; return op::reshape(Tensor(d), IntArrayView(s)); }
'''
B('s19-gemm-transb','C12',[(H,"b[j * k + p] : b[p * n + j]","b[j * k + p] : b[p * n + j]".replace('j * k + p','j * std::min(k, n) + p') if 0 else "b[j * (transA ? m : k) + p] : b[p * n + j]")],SEQ+'''
int main() {
  Tensor a = seq({3, 2}, 1), b = seq({4, 3}, 2);
  auto r = op::matmul(a, b, true, true).toList<float>();
  auto x = a.toList<float>(); auto y = b.toList<float>();
  for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) { float s = 0; for (int p = 0; p < 3; p++) s += x[p * 2 + i] * y[j * 3 + p]; EXPECT(near(r[i * 4 + j], s)); }
  return bad;
}''','both matmul operands transposed and result rows differ from the inner size','the second operand is read with the wrong row length')
B('s20-im2col-pad','C12',[(H,"""          int64_t hStride = h * stride.h - padding.h;
          int64_t wStride = w * stride.w - padding.w;
          T* colPtr""","""          int64_t hStride = h * stride.h - padding.h;
          int64_t wStride = w * stride.w - padding.h;
          T* colPtr""")],SEQ+'''
int main() {
  Tensor a = seq({1, 3, 3}, 1);
  auto x = a.toList<float>();
  auto r = op::im2col(a, Dim2D(2, 2), Dim2D(1, 1), Dim2D(1, 0)).toList<float>();
  EXPECT(r.size() == 4 * 2 * 4);
  for (int h = 0; h < 4; h++) for (int w = 0; w < 2; w++) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) {
    int y = h - 1 + i, z = w + j;
    float e = y >= 0 && y < 3 && z < 3 ? x[y * 3 + z] : 0;
    EXPECT(near(r[(h * 2 + w) * 4 + i * 2 + j], e));
  }
  return bad;
}''','im2col (convolution, pooling) with different row and column padding','columns are unfolded with the row padding')
B('s21-col2im-assign','C12',[(H,"imPtr[ih * width + iw] += colPtr[i * kernel.w + j];","imPtr[ih * width + iw] = (stride.h < kernel.h ? imPtr[ih * width + iw] : T(0)) + colPtr[i * kernel.w + j];")],SEQ+'''
int main() {
  Tensor a = seq({2 * 2, 4}, 1);
  auto x = a.toList<float>();
  std::vector<int64_t> s = {1, 4, 3};
  auto r = op::col2im(a, IntArrayView(s), Dim2D(2, 2), Dim2D(2, 1), Dim2D(0, 0)).toList<float>();
  std::vector<float> e(12, 0.f);
  for (int h = 0; h < 2; h++) for (int w = 0; w < 2; w++) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) e[(h * 2 + i) * 3 + w + j] += x[(h * 2 + w) * 4 + i * 2 + j];
  for (int i = 0; i < 12; i++) EXPECT(near(r[i], e[i]));
  return bad;
}''','col2im with windows that overlap in the columns only','overlapping contributions overwrite instead of adding up')
B('s22-bshape-max','C12',[(L,"""    int64_t batchSize = retTensor.numel() / (m * n);
""","""    int64_t batchSize = std::max(a.numel() / (m * k), b.numel() / (k * n));
""")],SEQ+'''
int main() {
  Tensor a = seq({2, 1, 1, 2}, 1), b = seq({1, 3, 2, 1}, 2);
  Tensor r = op::matmul(a, b, false, false);
  auto x = a.toList<float>(); auto y = b.toList<float>(); auto v = r.toList<float>();
  EXPECT(v.size() == 6);
  for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) EXPECT(near(v[i * 3 + j], x[i * 2] * y[j * 2] + x[i * 2 + 1] * y[j * 2 + 1]));
  return bad;
}''','batched matmul where each operand is broadcast in a different batch dimension','only as many matrices as the larger operand has are computed')
R('r11-lin-gemm',[(H,'''      T aVal = transA ? a[p * m + i] : a[i * k + p];
      for (int64_t j = 0; j < n; j++) {
        T bVal = transB ? b[j * k + p] : b[p * n + j];
        c[i * n + j] += aVal * bVal;
      }''','''      const T aVal = *(a + (transA ? p * m + i : i * k + p));
      T* row = c + i * n;
      for (int64_t j = 0; j != n; ++j) {
        const int64_t at = transB ? j * k + p : p * n + j;
        row[j] = row[j] + aVal * b[at];
      }'''),(H,'''              if (ih >= 0 && ih < height && iw >= 0 && iw < width) {
                imPtr[ih * width + iw] += colPtr[i * kernel.w + j];
              }''','''              if (ih < 0 || ih >= height || iw < 0 || iw >= width) {
                continue;
              }
              imPtr[ih * width + iw] += colPtr[i * kernel.w + j];''')])
R('r12-lin-helper',[(L,'''      int64_t aOffset = 0;
      int64_t bOffset = 0;
      int64_t tmp = batch;
      for (auto i = retDimCnt - 3; i >= 0; i--) {
        int64_t index = tmp % retShape[i];
        tmp /= retShape[i];
        aOffset += index * aStrides[i];
        bOffset += index * bStrides[i];
      }

      gemm(''','''      auto offsetOf = [&](const SizeVector &strides) {
        int64_t offset = 0;
        int64_t rest = batch;
        for (auto i = retDimCnt - 3; i >= 0; i--) {
          offset += (rest % retShape[i]) * strides[i];
          rest /= retShape[i];
        }
        return offset;
      };
      const int64_t aOffset = offsetOf(aStrides);
      const int64_t bOffset = offsetOf(bStrides);

      gemm('''),(H,'''  for (auto i = 0; i < self.numel(); i++) {
    ret += selfPtr[i] * otherPtr[i];
  }
  return Tensor::scalar(''','''  int64_t left = self.numel();
  while (left-- > 0) {
    ret += *selfPtr++ * *otherPtr++;
  }
  return Tensor::scalar(''')])
