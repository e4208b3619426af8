from mk import *
from b17 import FORK
I='Tensor/TensorImpl.h'; TC='Operation/OpTransformCpu.h'; RC='Operation/OpReduceCpu.h'; NN='Operation/OpNNLayerCpu.h'
B('s87-item-size','C02',[(I,"""  ASSERT(numel() == 1);
  CheckDTypeMatch<T>(dtype());""","""  ASSERT(numel() == 1);
  ASSERT(dtypeSize(dtype()) == sizeof(T));""")],FORK+"""int main() {
  EXPECT(traps([] { Tensor s = Tensor::scalar(1.5f); int x = (int)s.item<int32_t>(); if (x == 0) printf("%d\\n", x); }));
  return bad;
}
""",'an element is read as another type of the same size','bytes are reinterpreted instead of trapping')
B('s88-gather-void','C02',[(TC,"  const auto* idxPtr = index.dataPtr<int64_t>();\n  auto strides","  const auto* idxPtr = static_cast<const int64_t*>(index.dataPtr());\n  auto strides")],FORK+"""int main() {
  EXPECT(traps([] { Tensor x(std::vector<float>{1, 2, 3, 4}), i = Tensor::zeros({2}); Tensor y = op::gather(x, 0, i); if (y.numel() != 2) abort(); }));
  return bad;
}
""",'an index tensor of a floating type','the bytes of the index tensor are reinterpreted')
B('s89-argmax-last','C10',[(RC,"    if (OP::template apply<T>(val, input[i]) != val) {","    if (OP::template apply<T>(val, input[i]) == input[i]) {")],
"""  Tensor a(std::vector<float>{1, 7, 3, 7});
  EXPECT(op::argmax(a).item<int64_t>() == 1);
""",'equal extremes','the last instead of the first position is returned')
B('s90-var-small','C10',[(RC,"""    auto r = 1.f / reduceSize;
    if (unbiased) {""","""    auto r = 1.f / reduceSize;
    if (unbiased && reduceSize > 2.f) {""")],
"""  Tensor a(std::vector<float>{1, 3, 2, 6}, IntArrayView{2, 2});
  auto l = a.var(1, true).toList<float>();
  EXPECT(near(l[0], 2) && near(l[1], 8));
""",'groups of two elements','the unbiased variance of two elements is the biased one')
B('s91-nograd-static','C07',[('Tensor/NoGradGuard.h',"static thread_local bool gradEnabled;","static bool gradEnabled;"),('Tensor/NoGradGuard.cpp',"thread_local bool NoGradGuard::gradEnabled = true;","bool NoGradGuard::gradEnabled = true;")],
"""  NoGradGuard g;
  bool r = false;
  std::thread t([&] { Tensor a(std::vector<float>{1, 2}, options::requiresGrad()); r = (a * a).requiresGrad(); });
  t.join();
  EXPECT(r);
""",'a guard in one thread while another thread computes','a guard switches recording off in all threads')
s=open(S+'/s91-nograd-static/demo.cpp').read(); open(S+'/s91-nograd-static/demo.cpp','w').write('#include <thread>\n'+s)
B('s92-reshape-early','C13',[('Tensor/TensorImpl.cpp',"""  // check shape
  int64_t numel = 0;""","""  computeStrides(strides_, retShape);
  // check shape
  int64_t numel = 0;""")],
"""  Tensor a(std::vector<float>{1, 2, 3, 4, 5, 6}, IntArrayView{2, 3});
  a.reshape_({4, 2});
  EXPECT(a.dim() == 2 && a.stride(0) == 3);
""",'a reshape to a wrong element count','the refused request changes the strides')
B('s93-pushback','C18',[('Module/Module.h',"""    registerModule(std::to_string(modules_.size()), *module);
    modules_.emplace_back(module);
  }

  Module &""","""    modules_.emplace_back(module);
    registerModule(std::to_string(modules_.size()), *module);
  }

  Module &""")],
"""  nn::ModuleList l;
  l.pushBack(std::make_shared<nn::Linear>(2, 2));
  auto p = l.namedParameters();
  EXPECT(p.size() == 2 && p[0].first.rfind("0.", 0) == 0);
""",'modules added one by one','the entries are named by the next position')
B('s94-maskout-self','C17',[('Operation/OpFillingCpu.h',"""  ASSERT(self.shape() == mask.shape());
  out.copyOnWrite();
  fillOpMaskedCpuImplDetail<T>(out, self, mask, val);""","""  ASSERT(self.shape() == mask.shape());
  out.copyOnWrite();
  fillOpMaskedCpuImplDetail<T>(out, out, mask, val);""")],
"""  Tensor a(std::vector<float>{1, 2, 3}), m = a > 2.f, o = Tensor::zeros({3});
  op::fillMaskedOut(o, a, m, Scalar(9.f));
  auto l = o.toList<float>();
  EXPECT(l[0] == 1 && l[1] == 2 && l[2] == 9);
""",'a masked fill into another tensor','unmasked elements are taken from the destination')
B('s95-bf16-reg','C01',[('Operation/OpFusedCpu.cpp',"  REGISTER_OP_IMPL(NAME, CPU, BFloat16, &(FUNC<DTypeToType_t<DType::BFloat16>>))","  REGISTER_OP_IMPL(NAME, CPU, BFloat16, &(FUNC<DTypeToType_t<DType::Float16>>))")],FORK+"""int main() {
  EXPECT(!traps([] { Tensor a = Tensor::ones({4}).to(DType::BFloat16); Tensor y = op::siluMul(a).to(DType::Float32); if (!near(y.toList<float>()[0], 0.731, 0.02)) abort(); }));
  return bad;
}
""",'a BFloat16 input','the implementation for Half is called')
B('s96-rope-pos','C16',[(NN,"        int64_t posIndex = offset + t;","        int64_t posIndex = h == 0 ? offset + t : t;")],
"""  Tensor r = op::ropeInit(4, 16, 10000.f, std::nullopt, options::dtype(DType::Float32));
  Tensor x = Tensor::ones({1, 2, 1, 4});
  auto l = op::ropeApply(x, r, 3).toList<float>();
  for (int i = 0; i < 4; i++) EXPECT(near(l[i], l[4 + i]));
""",'several heads with a position offset','only the first head is rotated by the offset')
B('s97-var-args','C14',[('Tensor/Tensor.cpp',"  return function::varMean(*this, dims, unbiased, keepDims);","  return function::varMean(*this, dims, keepDims, unbiased);")],
"""  Tensor a(std::vector<float>{1, 3, 2, 6}, IntArrayView{2, 2});
  std::vector<int64_t> d{1};
  auto p = a.varMean(IntArrayView(d), true, false);
  EXPECT(p.first.dim() == 1 && near(p.first.toList<float>()[0], 2));
""",'different values for the two flags','keepDims and unbiased are exchanged')
B('s98-argmax-scalar','C05',[(RC,"    return Tensor::scalar(0, t.options().noGrad().indices());\n  }\n  auto ret","    return Tensor::scalar(0, t.options().noGrad());\n  }\n  auto ret")],
"""  EXPECT(op::argmax(Tensor::scalar(3.f)).dtype() == DType::Int64);
""",'a scalar input','the position has the element type of the input')
