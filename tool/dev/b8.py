from mk import *
T='Tensor/TensorImpl.cpp'
B('s25-unsqueeze-neg','C13',[(T,"""    d += dim() + 1;
  }
  SizeVector retShape;""","""    d = d == -1 ? dim() : d + dim();
  }
  SizeVector retShape;""")],'''
int main() {
  Tensor x = Tensor::ones({2, 3, 4});
  auto y = op::unsqueeze(x, -2);
  auto s = y.shape();
  EXPECT(s.size() == 4 && s[0] == 2 && s[1] == 3 && s[2] == 1 && s[3] == 4);
  return bad;
}''','unsqueeze with a negative dimension other than -1','the dimension of size 1 is inserted one place too early')
B('s26-reshape-strides','C13',[(T,"""  shape_ = std::move(retShape);
  computeStrides(strides_, shape_);""","""  const bool sameRank = strides_.size() == retShape.size() && shape_.size() == retShape.size();
  const bool sameLast = sameRank && !retShape.empty() && retShape.back() == shape_.back();
  shape_ = std::move(retShape);
  if (!sameLast) {
    computeStrides(strides_, shape_);
  }""")],'''
int main() {
  std::vector<float> d(12); for (int i = 0; i < 12; i++) d[i] = i;
  Tensor x(d);
  x.reshape_({3, 2, 2});
  Tensor y = op::reshape(x, std::vector<int64_t>{1, 6, 2});
  EXPECT(y.stride(0) == 12);
  Tensor t = op::transpose(y, 0, 1);
  return bad;
}''','a reshape that keeps the number of dimensions and the last one but changes the middle ones','strides of the old shape stay in place')
B('s27-setstorage-offset','C13',[(T,"""  storage_ = storage;
  storageOffset_ = offset;
  dataPtr_ = storage_->dataPtr<uint8_t>() + storageOffset_ * dtypeSize(options_.dtype_);""","""  dataPtr_ = storage->dataPtr<uint8_t>() + storageOffset_ * dtypeSize(options_.dtype_);
  storage_ = storage;
  storageOffset_ = offset;""")],'''
int main() {
  std::vector<float> d = {1, 2, 3, 4, 5, 6};
  Tensor x(d);
  Tensor y({2}, options::dtype(DType::Float32));
  y.getImpl().setStorage(x.storage(), 2);
  EXPECT(near(y.toList<float>()[0], 3));
  return bad;
}''','attaching a storage at a non-zero offset','the data pointer keeps the previous offset')
B('s28-flatten-op-args','C13',[('Operation/OpTransform.cpp',"""  ret.getImpl().unflatten_(dim, shape);
  return ret;""","""  if (shape.size() == 1) {
    return ret;
  }
  ret.getImpl().unflatten_(dim < 0 ? dim + 1 : dim, shape);
  return ret;""")],'''
int main() {
  Tensor x = Tensor::ones({2, 6});
  auto y = op::unflatten(x, -1, std::vector<int64_t>{2, 3});
  auto s = y.shape();
  EXPECT(s.size() == 3 && s[1] == 2 && s[2] == 3);
  return bad;
}''','unflatten with a negative dimension through the operator','the dimension reaches the shape method shifted by one')
R('r14-shape-helpers',[(T,"""  SizeVector retShape;
  for (int64_t i = 0; i < d; i++) {
    retShape.pushBack(shape_[i]);
  }
  retShape.pushBack(1);
  for (int64_t i = d; i < dim(); i++) {
    retShape.pushBack(shape_[i]);
  }
""","""  const int64_t oldDim = dim();
  SizeVector retShape(oldDim + 1, 1);
  for (int64_t i = 0, j = 0; i < oldDim; ++i, ++j) {
    if (j == d) {
      ++j;
    }
    retShape[j] = shape_[i];
  }
"""),(T,"""  if (d < -dim() || d >= dim()) {
    LOGE("Invalid dim");
    return;
  }
  if (d < 0) {
    d += dim();
  }
  if (shape_[d] != 1) {
    // Ref: https://docs.pytorch.org/docs/stable/generated/torch.squeeze.html
    // If input is of shape: (A x 1 x B), squeeze(input, 0) leaves the tensor unchanged
    return;
  }
""","""  const int64_t rank = dim();
  const bool valid = d >= -rank && d < rank;
  if (!valid) {
    LOGE("Invalid dim");
    return;
  }
  d = d < 0 ? d + rank : d;
  const bool removable = shape_[d] == 1;
  if (!removable) {
    return;
  }
"""),('Operation/OpTransform.cpp',"""  Tensor ret = self.detach();
  ret.getImpl().reshape_(shape);
  return ret;""","""  auto result = self.detach();
  auto& impl = result.getImpl();
  impl.reshape_(shape);
  return result;"""),(T,"""  ASSERT(offset * static_cast<int64_t>(dtypeSize(options_.dtype_)) + nbytes() <= storage->size());
  storage_ = storage;
  storageOffset_ = offset;
  dataPtr_ = storage_->dataPtr<uint8_t>() + storageOffset_ * dtypeSize(options_.dtype_);""","""  const auto elemSize = static_cast<int64_t>(dtypeSize(options_.dtype_));
  ASSERT(offset * elemSize + nbytes() <= storage->size());
  storageOffset_ = offset;
  storage_ = storage;
  uint8_t* base = storage_->dataPtr<uint8_t>();
  dataPtr_ = base + elemSize * offset;""")])
