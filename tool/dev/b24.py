from mk import *
I='Tensor/TensorImpl.cpp'
B('s105-width-flatten','C25',[(I,"  int64_t flattenDims = 1;\n  for (int64_t i = startDim; i <= endDim; i++) {\n    flattenDims *= shape_[i];\n  }","  int flattenDims = 1;\n  for (int64_t i = startDim; i <= endDim; i++) {\n    flattenDims *= shape_[i];\n  }")],
"""  Tensor a = Tensor::empty({1 << 16, 1 << 16, 1}, options::dtype(DType::Bool));
  Tensor b = op::flatten(a, 0, 1);
  EXPECT(b.dim() == 2);
  EXPECT(b.dim() == 2 && b.shape(0) == (int64_t)1 << 32);
""",'a tensor of 2^32 elements','flatten leaves such a tensor as it was')
B('s106-width-fill','C25',[('Operation/OpFillingCpu.h',"  std::fill_n(selfPtr, self.numel(), val.to<T>());\n}\n\ntemplate <typename T>\nvoid fillOpMaskedCpuImplDetail","  const auto count = static_cast<uint32_t>(self.numel());\n  std::fill_n(selfPtr, count, val.to<T>());\n}\n\ntemplate <typename T>\nvoid fillOpMaskedCpuImplDetail")],
"""  int64_t n = ((int64_t)1 << 32) + 8;
  Tensor a = Tensor::empty({n}, options::dtype(DType::Bool));
  bool* p = (bool*)a.dataPtr<uint8_t>();
  p[n - 1] = p[n / 2] = p[100] = false;
  op::fill(a, Scalar(1));
  EXPECT(p[7] && p[100] && p[n / 2] && p[n - 1]);
""",'a tensor of more than 2^32 elements','only the first elements are filled')
B('s107-width-chunk','C25',[('Operation/OpTransform.cpp',"  int64_t splitSize = (dimSize + chunks - 1) / chunks;","  auto splitSize = static_cast<int64_t>(std::ceil(static_cast<float>(dimSize) / static_cast<float>(chunks)));")],
"""  Tensor a = Tensor::empty({((int64_t)1 << 25) + 2}, options::dtype(DType::Bool));
  auto r = op::chunk(a, 2, 0);
  EXPECT(r.size() == 2 && r[0].shape(0) == (1 << 24) + 1 && r[1].shape(0) == (1 << 24) + 1);
""",'a dimension above 2^24','the pieces have other sizes than asked: the extent was rounded to a 32-bit float')
