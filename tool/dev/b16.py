from mk import *
H='Tensor/TensorIterator.h'; X='Tensor/TensorIterator.cpp'; W='Operation/OpElemWiseCpu.h'
R('r20-bcast-walk',[(H,"""    for (int64_t d = ndim_ - 1; d >= 0; d--) {
      dimSize[d] = shape_[d];
      for (size_t j = 0; j < nInputs; j++) {
        increment[j][d] = (strides_[j][d] == 0 ? 0 : stridesTmp[j]);
        stridesTmp[j] *= shapes_[j][d];
      }
    }
""","""    for (int64_t d = ndim_ - 1; d > -1; d--) {
      for (size_t j = 0; j < nInputs; ++j) {
        const bool fixed = strides_[j][d] == 0;
        increment[j][d] = fixed ? 0 : stridesTmp[j];
        stridesTmp[j] = stridesTmp[j] * shapes_[j][d];
      }
      dimSize[d] = shape_[d];
    }
"""),(H,"""        coord[d]++;
        for (size_t j = 0; j < nInputs; j++) {
          offsets[j] += increment[j][d];
        }
        if (coord[d] < dimSize[d]) {
          break;
        }
        for (size_t j = 0; j < nInputs; j++) {
          offsets[j] -= coord[d] * increment[j][d];
        }
        coord[d] = 0;
""","""        if (coord[d] + 1 < dimSize[d]) {
          coord[d]++;
          for (size_t j = 0; j < nInputs; j++) {
            offsets[j] += increment[j][d];
          }
          break;
        }
        for (size_t j = 0; j < nInputs; j++) {
          offsets[j] -= (dimSize[d] - 1) * increment[j][d];
        }
        coord[d] = 0;
"""),(H,"""    for (int64_t i = 0; i < total; i++) {
      *outPtr++ = static_cast<OutType>(
          callWithIndices(f, indexer, i, std::make_index_sequence<sizeof...(DataPtrs)>(), dataPtrs...));
    }""","""    int64_t i = 0;
    while (i < total) {
      outPtr[i] = static_cast<OutType>(
          callWithIndices(f, indexer, i, std::make_index_sequence<sizeof...(DataPtrs)>(), dataPtrs...));
      i++;
    }""")])
R('r21-bcast-setup',[(X,"""  needBroadcast_ = false;
  for (size_t i = 0; i < nInputs; i++) {
    if (inputs_[i]->shape() != shape_) {
      needBroadcast_ = true;
      break;
    }
  }

  allNonScalarSameShape_ = true;
  IntArrayView refShape;
  bool found = false;
  for (size_t i = 0; i < nInputs; i++) {
    if (!isScalar_[i]) {
      if (!found) {
        refShape = inputs_[i]->shape();
        found = true;
      } else if (inputs_[i]->shape() != refShape) {
        allNonScalarSameShape_ = false;
        break;
      }
    }
  }
""","""  needBroadcast_ = false;
  allNonScalarSameShape_ = true;
  for (size_t i = 0; i < nInputs; i++) {
    if (inputs_[i]->shape() != shape_) {
      needBroadcast_ = true;
      if (!isScalar_[i]) {
        allNonScalarSameShape_ = false;
      }
    }
  }
"""),(X,"""    for (const auto& shape : shapes) {
      auto idx = ndim - static_cast<int64_t>(shape.size());
      int64_t d = i < idx ? 1 : shape[i - idx];
      if (d != 1 && dim != 1 && d != dim) {
        LOGE("Incompatible shapes for broadcasting");
        return false;
      }
      dim = dim == 1 ? d : dim;
    }""","""    for (const auto& shape : shapes) {
      const int64_t missing = ndim - static_cast<int64_t>(shape.size());
      int64_t d = i >= missing ? shape[i - missing] : 1;
      if (d == 1 || d == dim) {
        continue;
      }
      if (dim != 1) {
        LOGE("Incompatible shapes for broadcasting");
        return false;
      }
      dim = d;
    }"""),(X,"""  auto shape = t.shape();
  ret.resize(ndim, 1);
  for (size_t i = 0; i < shape.size(); i++) {
    ret[ndim - shape.size() + i] = shape[i];
  }""","""  auto shape = t.shape();
  ret.resize(ndim, 1);
  const size_t lead = ndim - shape.size();
  for (size_t i = 0; i < shape.size(); i++) {
    ret[lead + i] = shape[i];
  }""")])
R('r22-bcast-users',[(W,"""  TensorIteratorCpu iterator(self, other);
  auto outShape = iterator.setupBroadcast();
  ASSERT(iterator.isBroadcastOk());
  ASSERT(outShape == self.shape());
  self.copyOnWrite();
  iterator.template forEach<T>(self, [](""","""  TensorIteratorCpu iterator(self, other);
  const auto resultShape = iterator.setupBroadcast();
  ASSERT(iterator.isBroadcastOk() && self.shape() == resultShape);
  self.copyOnWrite();
  iterator.template forEach<T>(self, [](""")])
