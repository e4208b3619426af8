from mk import *
H='Operation/OpTransformCpu.h'
B('s15-tri-batch','C11',[(H,"""  int64_t batch = 1;
  for (int i = 0; i < dims - 2; i++) {
    batch *= self.shape(i);
  }

  const T* selfPtr = self.dataPtr<T>();
  T* retPtr = ret.dataPtr<T>();

  const int64_t matrixSize""","""  int64_t batch = dims > 2 ? self.shape(0) : 1;

  const T* selfPtr = self.dataPtr<T>();
  T* retPtr = ret.dataPtr<T>();

  const int64_t matrixSize""")],
"""
int main() {
  std::vector<float> d(2 * 3 * 2 * 2);
  for (size_t i = 0; i < d.size(); i++) d[i] = (float)i + 1;
  Tensor t = op::reshape(Tensor(d), IntArrayView{2, 3, 2, 2});
  auto v = op::tril(t, 0).toList<float>();
  for (int b = 0; b < 6; b++) for (int i = 0; i < 4; i++) EXPECT(near(v[b * 4 + i], i == 1 ? 0 : d[b * 4 + i]));
  return bad;
}""",'tril or triu of a tensor with four or more dimensions','only the first shape(0) matrices of the batch are written; the rest of the result is uninitialised')
B('s16-indexadvance-negwrap','C11',[(H,'''ind >= 0 ? ind : ind + t.shape(static_cast<int64_t>(i));''','''ind >= 0 ? ind : ind + t.shape(-1);''')],
'''
static Tensor seq(int n) { std::vector<float> d(n); for (int i = 0; i < n; i++) d[i] = (float)i; return Tensor(d); }
int main() {
  Tensor t = op::reshape(seq(24), IntArrayView{4, 3, 2});
  std::vector<int64_t> a = {-1, 1};
  std::vector<Tensor> ix = {Tensor(a)};
  Tensor r = op::indexAdvance(t, ArrayView<Tensor>(ix));
  auto v = r.toList<float>();
  EXPECT(v.size() == 12);
  for (int i = 0; i < 6; i++) { EXPECT(near(v[i], 18 + i)); EXPECT(near(v[6 + i], 6 + i)); }
  return bad;
}''','advanced indexing of a tensor that is not 2-d with a negative index, when the indexed dimension differs from the last one','negative positions count from the end of the wrong dimension')
B('s17-chunk-bytes','C11',[('Operation/OpTransform.cpp','''        int64_t copySize = currentSize * innerBlockSize * sizeof(T);''','''        int64_t copySize = currentSize * innerBlockSize * sizeof(float);''')],
'''
int main() {
  std::vector<int64_t> a(12);
  for (int i = 0; i < 12; i++) a[i] = i + 1;
  Tensor t = op::reshape(Tensor(a), IntArrayView{2, 6});
  auto c = op::chunk(t, 2, 1);
  EXPECT(c.size() == 2);
  for (int k = 0; k < 2; k++) { auto v = c[k].toList<int64_t>(); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) EXPECT(v[i * 3 + j] == i * 6 + k * 3 + j + 1); }
  return bad;
}''','chunk of an Int64 tensor along a dimension other than the first','only half of each row is copied')
B('s18-narrow-offset','C11',[('Operation/OpTransform.cpp','''    int64_t newOffset = self.storageOffset() + start * self.stride(0);
    return {retShape''','''    int64_t newOffset = start * self.stride(0);
    return {retShape''')],
'''
static Tensor seq(int n) { std::vector<float> d(n); for (int i = 0; i < n; i++) d[i] = (float)i; return Tensor(d); }
int main() {
  Tensor t = op::reshape(seq(24), IntArrayView{12, 2});
  Tensor a = op::narrow(t, 0, 4, 6);
  Tensor b = op::narrow(a, 0, 2, 3);
  auto v = b.toList<float>();
  for (int i = 0; i < 6; i++) EXPECT(near(v[i], 12 + i));
  return bad;
}''','narrowing a tensor that is itself a view with a storage offset, along dimension 0','the second view starts at the beginning of the storage instead of the beginning of the view')
R('r09-xform-permute',[(H,'''    int64_t originIndex = 0;
    int64_t offset = i;
    for (int64_t d = 0; d < self.dim(); d++) {
      originIndex += (offset / ret.stride(d)) * self.stride(dims[d]);
      offset %= ret.stride(d);
    }
    retPtr[i] = selfPtr[originIndex];''','''    int64_t from = 0;
    int64_t rest = i;
    for (int64_t d = self.dim() - 1; d >= 0; d--) {
      const int64_t c = rest % retShape[d];
      rest = rest / retShape[d];
      from += c * self.stride(dims[d]);
    }
    retPtr[i] = selfPtr[from];'''),(H,'''  int64_t batch = 1;
  for (int i = 0; i < dims - 2; i++) {
    batch *= self.shape(i);
  }

  const T* selfPtr = self.dataPtr<T>();
  T* retPtr = ret.dataPtr<T>();

  const int64_t matrixSize = rows * cols;
  for (int64_t b = 0; b < batch; b++) {
    const T* selfBatchPtr = selfPtr + b * matrixSize;
    T* retBatchPtr = retPtr + b * matrixSize;
''','''  const T* selfPtr = self.dataPtr<T>();
  T* retPtr = ret.dataPtr<T>();

  const int64_t matrixSize = rows * cols;
  const int64_t batch = self.numel() / matrixSize;
  for (int64_t b = 0; b < batch; b++) {
    const T* selfBatchPtr = selfPtr + b * matrixSize;
    T* retBatchPtr = retPtr + b * matrixSize;
'''),(H,'''        if ((LOWER && j <= i + diagonal) || (!LOWER && j >= i + diagonal)) {
          retBatchPtr[i * cols + j] = selfBatchPtr[i * cols + j];
        } else {
          retBatchPtr[i * cols + j] = static_cast<T>(0);
        }''','''        const bool keep = LOWER ? (j - i <= diagonal) : (j - i >= diagonal);
        retBatchPtr[i * cols + j] = keep ? selfBatchPtr[i * cols + j] : static_cast<T>(0);''')])
R('r10-xform-copy',[('Operation/OpTransform.cpp','''  int64_t srcStride = self.shape(dim) * innerSize;
  int64_t dstStride = length * innerSize;

  for (int64_t o = 0; o < outerSize; o++) {
    const T* srcBase = selfPtr + o * srcStride + start * innerSize;
    T* dstBase = retPtr + o * dstStride;
    Storage::copyOnDevice(dstBase, srcBase, sizeof(T) * length * innerSize, self.device());''','''  const int64_t srcStride = self.shape(dim) * innerSize;
  const int64_t dstStride = length * innerSize;
  const T* src = selfPtr + start * innerSize;
  T* dst = retPtr;

  for (int64_t o = 0; o < outerSize; o++) {
    Storage::copyOnDevice(dst, src, dstStride * sizeof(T), self.device());
    src += srcStride;
    dst += dstStride;'''),('Operation/OpTransform.cpp','''    for (auto outerIdx = 0; outerIdx < outerBlockSize; outerIdx++) {
      int64_t srcOffset = outerIdx * dimSize * innerBlockSize + sectionOffset * innerBlockSize;
      int64_t dstOffset = outerIdx * sectionSizes[i] * innerBlockSize;
      int64_t copySize = sectionSizes[i] * innerBlockSize * sizeof(T);
      Storage::copyOnDevice(retPtr + dstOffset, selfPtr + srcOffset, copySize, self.device());
    }''','''    const int64_t blk = sectionSizes[i] * innerBlockSize;
    for (int64_t row = 0; row < outerBlockSize; row++) {
      const T* from = selfPtr + (row * dimSize + sectionOffset) * innerBlockSize;
      Storage::copyOnDevice(retPtr + row * blk, from, blk * static_cast<int64_t>(sizeof(T)), self.device());
    }'''),(H,'''  SizeVector coord(ndim);
  for (int64_t i = 0; i < index.numel(); i++) {
    int64_t remain = i;
    for (auto d = 0; d < ndim; d++) {
      coord[d] = remain / indexStrides[d];
      remain = remain % indexStrides[d];
    }
    int64_t idx = idxPtr[i];
    if (idx < 0) idx += selfShape[dim];
    ASSERT(idx >= 0 && idx < selfShape[dim]);
    coord[dim] = idx;
''','''  SizeVector coord(ndim);
  const int64_t total = index.numel();
  for (int64_t i = 0; i < total; ++i) {
    for (int64_t d = 0, remain = i; d < ndim; d++) {
      coord[d] = remain / indexStrides[d];
      remain -= coord[d] * indexStrides[d];
    }
    const int64_t raw = idxPtr[i];
    coord[dim] = raw < 0 ? raw + selfShape[dim] : raw;
    ASSERT(coord[dim] >= 0 && coord[dim] < selfShape[dim]);
''')])
