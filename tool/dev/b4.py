from mk import B,R
H='Operation/OpReduceCpu.h'; C='Operation/OpReduceCpu.cpp'
B('s13-vardims-unbiased','C10',[(H,'''    auto reduceSize = static_cast<float>(t.numel()) / static_cast<float>(varVal.numel());
    auto r = 1.f / reduceSize;
    if (unbiased) {
      r *= reduceSize / (reduceSize - 1.f);
    }''','''    auto reduceSize = static_cast<float>(t.numel()) / static_cast<float>(varVal.numel());
    auto r = 1.f / reduceSize;
    if (unbiased && reduceSize < 64.f) {
      r *= reduceSize / (reduceSize - 1.f);
    }''')],
'''  Tensor x = Tensor::arange<float>(0, 128).reshape({2, 64});
  auto v = op::varMeanOnDims(x, IntArrayView{1}, true, false).first.toList<float>();
  double m = 31.5, s = 0;
  for (int i = 0; i < 64; i++) s += (i - m) * (i - m);
  EXPECT(near(v[0], s / 63, 1e-2));''','variance over 64 or more elements','the correction for an unbiased variance is left out for long lanes')
B('s14-maxdim-init','C10',[(H,'''      if (OP::template compare<T>(val, targetVal)) {
        targetVal = val;''','''      if (OP::template compare<T>(val, targetVal) || (j > 0 && val == targetVal)) {
        targetVal = val;''')],
'''  Tensor x(Array2d<float>{{3, 1, 3}, {2, 5, 5}});
  auto i = op::maxOnDim(x, 1, false).second.toList<int64_t>();
  EXPECT(i[0] == 0); EXPECT(i[1] == 1);''','a lane whose maximum occurs more than once','the position of the last instead of the first maximum is returned')
B('s15-reduce-src-keep','C10',[(C,'''    if (keepDims || d < dim) {''','''    if ((keepDims && d != dim + 1) || d < dim) {''')],
'''  Tensor x = Tensor::arange<float>(0, 24).reshape({2, 3, 4});
  auto v = op::maxOnDim(x, 0, true).first.toList<float>();
  for (int i = 0; i < 12; i++) EXPECT(near(v[i], 12 + i));''','min/max over a leading dimension of a 3-d tensor with keepDims','elements of another lane are read')
R('r05-reduce-dst',[(C,'''int64_t ReducerCpu::getReduceDstIndex(const Tensor& t, int64_t idx, const DimArray<int64_t>& inAxis) {
  int64_t retIdx = 0;
  int64_t stride = 1;
  for (int64_t d = t.dim() - 1; d >= 0; d--) {
    if (0 == inAxis.data[d]) {
      retIdx += (idx / t.stride(d) % t.shape(d)) * stride;
      stride *= t.shape(d);
    }
  }
  return retIdx;''','''int64_t ReducerCpu::getReduceDstIndex(const Tensor& t, int64_t idx, const DimArray<int64_t>& inAxis) {
  int64_t offset = 0;
  int64_t scale = 1;
  int64_t rest = idx;
  int64_t d = t.dim();
  while (d-- > 0) {
    const auto size = t.shape(d);
    const auto coord = rest % size;
    rest /= size;
    if (inAxis.data[d] != 0) {
      continue;
    }
    offset += scale * coord;
    scale *= size;
  }
  return offset;''')])
R('r06-reduce-all',[(H,'''  T val = OP::template defaultVal<T>();
  for (int64_t i = 0; i < n; i++) {
    val = OP::template apply<T>(input[i], val);
  }
  *output = val;''','''  T acc = OP::template defaultVal<T>();
  for (const T *p = input, *end = input + n; p != end; ++p) {
    acc = OP::template apply<T>(acc, *p);
  }
  output[0] = acc;'''),(H,'''    if (d < 0) {
      d += t.dim();
    }
    if (d < 0 || d >= t.dim()) {
      LOGE("Invalid reduce dim: %lld", d);
      ASSERT(false);
      return {};
    }
    inAxis.data[d] = 1;''','''    const int64_t axis = d >= 0 ? d : d + t.dim();
    if (axis < 0 || axis >= t.dim()) {
      LOGE("Invalid reduce dim: %lld", axis);
      ASSERT(false);
      return {};
    }
    inAxis.data[axis] = 1;''')])
R('r07-reduce-mean',[(H,'''    auto r = static_cast<float>(ret.numel()) / static_cast<float>(t.numel());
    op::mulInplace(ret, Tensor::scalar(r, ret.options().noGrad()));''','''    const auto count = static_cast<float>(t.numel()) / static_cast<float>(ret.numel());
    op::divInplace(ret, Tensor::scalar(count, ret.options().noGrad()));'''),(H,'''  const auto n = static_cast<float>(t.numel());
  auto r = 1.f / n;
  if (unbiased) {
    r *= n / (n - 1.f);
  }''','''  const auto n = static_cast<float>(t.numel());
  const auto r = unbiased ? 1.f / (n - 1.f) : 1.f / n;'''),(H,'''    const auto diff = tPtr[i] - meanPtr[0];
    squaredDiff += diff * diff;''','''    squaredDiff += (tPtr[i] - *meanPtr) * (tPtr[i] - *meanPtr);''')])
R('r08-reduce-idx',[(H,'''    for (int64_t j = 0; j < dimSize; j++) {
      auto val = dataPtr[srcIdx];
      srcIdx += stride;
      if (OP::template compare<T>(val, targetVal)) {
        targetVal = val;
        targetIdx = j;
      }
    }''','''    for (int64_t j = 0; j < dimSize; ++j) {
      const auto val = dataPtr[srcIdx + j * stride];
      if (!OP::template compare<T>(val, targetVal)) {
        continue;
      }
      targetIdx = j;
      targetVal = val;
    }'''),('Operation/OpReduce.cpp','''    if (d == dim) {
      if (keepDims) {
        retShape.pushBack(1);
      }
    } else {
      retShape.pushBack(t.shape(d));
    }''','''    if (d != dim) {
      retShape.pushBack(t.shape(d));
      continue;
    }
    if (keepDims) {
      retShape.pushBack(1);
    }''')])
