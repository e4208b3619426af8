from mk import B
B('s01-logicor-inplace','C01',[('Operation/OpElemWiseCpu.cpp','REG_ELEM_WISE_CPU_BOOL(logicOrInplace, binaryOpInplaceCpuImpl, OpCpuLogicOr);','REG_ELEM_WISE_CPU_BOOL(logicOrInplace, binaryOpInplaceCpuImpl, OpCpuLogicAnd);')],
'''  Tensor a(Array1d<float>{1, 0, 1, 0}), b(Array1d<float>{1, 1, 0, 0});
  Tensor x = a > b, y = b > a;
  Tensor r = op::logicOr(x, y);
  op::logicOrInplace(x, y);
  auto p = r.toList<uint8_t>(), q = x.toList<uint8_t>();
  for (size_t i = 0; i < p.size(); i++) EXPECT(p[i] == q[i]);''','the in-place form of logicOr on Bool tensors','the in-place logicOr is served by the implementation of logicAnd')
B('s02-sub-alpha','C03',[('Operation/OpElemWiseCpu.h','return a - alpha * b;','return alpha * (a - b);')],
'''  Tensor a(Array1d<float>{1, 2, 3}), b(Array1d<float>{4, 5, 7});
  auto r = op::sub(a, b, Scalar(3)).toList<float>();
  EXPECT(near(r[0], -11)); EXPECT(near(r[1], -13)); EXPECT(near(r[2], -18));''','subtraction with a scale factor other than 1','sub(a, b, alpha) scales both operands')
B('s03-scatter-cow','C04',[('Operation/OpTransformCpu.h','''  self.copyOnWrite();
  T* selfPtr = self.dataPtr<T>();
  const T* srcPtr = src.dataPtr<T>();

  indexCoordForEach(self, dim, index, [&](int64_t i, int64_t offset) { selfPtr[offset] = srcPtr[i]; });''','''  T* selfPtr = self.dataPtr<T>();
  self.copyOnWrite();
  const T* srcPtr = src.dataPtr<T>();

  indexCoordForEach(self, dim, index, [&](int64_t i, int64_t offset) { selfPtr[offset] = srcPtr[i]; });''')],
'''  Tensor base(Array1d<float>{0, 0, 0, 0});
  Tensor other = base.view({2, 2});
  Tensor idx(Array1d<int64_t>{1, 3}, options::dtype(DType::Int64));
  Tensor src(Array1d<float>{5, 6});
  op::scatterInplace(base, 0, idx, src);
  auto o = other.toList<float>();
  auto v = base.toList<float>();
  EXPECT(o[0] == 0); EXPECT(o[1] == 0); EXPECT(o[3] == 0);
  EXPECT(v[1] == 5); EXPECT(v[3] == 6);''','scatter into a tensor while another tensor shares its storage','the destination pointer is taken before the shared storage is copied, so the write lands in the other tensor')
B('s04-pow-guard','C06',[('Function/FuncElemWise.h','''    if (other.requiresGrad()) {
      other.addGrad(reduceGrad(other, op::powBackwardP2(grad, self, other)));
    }''','''    if (self.requiresGrad() && other.requiresGrad()) {
      other.addGrad(reduceGrad(other, op::powBackwardP2(grad, self, other)));
    }''')],
'''  Tensor a(Array1d<float>{2, 3});
  Tensor b(Array1d<float>{2, 1}, options::requiresGrad(true));
  auto y = function::pow(a, b);
  y.backward(Tensor::onesLike(y));
  EXPECT(b.grad().defined());
  if (b.grad().defined()) { auto g = b.grad().toList<float>(); EXPECT(near(g[0], 4 * std::log(2.0))); EXPECT(near(g[1], 3 * std::log(3.0))); }''','pow with a constant base and an exponent that requires a gradient','the exponent gets no gradient')
B('s05-nested-guard','C07',[('Tensor/NoGradGuard.h','''    prevGradEnabled = gradEnabled;
    gradEnabled = false;''','''    gradEnabled = false;
    prevGradEnabled = gradEnabled || true;''')],
'''  Tensor a(Array1d<float>{2, 3}, options::requiresGrad(true));
  {
    NoGradGuard outer;
    { NoGradGuard inner; EXPECT(!NoGradGuard::isGradEnabled()); }
    EXPECT(!NoGradGuard::isGradEnabled());
    auto y = function::mul(a, a);
    EXPECT(!y.requiresGrad());
  }
  EXPECT(NoGradGuard::isGradEnabled());''','a guard inside the scope of another guard','ending the inner guard switches recording back on inside the outer one')
B('s06-graph-count','C07',[('Tensor/AutogradMeta.cpp',"""      deps[nextFn] += 1;
      if (traversed.find(nextFn) == traversed.end()) {""","""      if (traversed.find(nextFn) == traversed.end() || curr->nextFunctions.size() > 1) {
        deps[nextFn] += 1;
      }
      if (traversed.find(nextFn) == traversed.end()) {""")],
"""  Tensor a(Array1d<float>{2, 3}, options::requiresGrad(true));
  auto b = function::mul(a, a);
  auto c = function::sin(b);
  auto e = function::mul(b, function::cos(c));   // b is used by the root and, deeper, by a unary function
  e.backward(Tensor::onesLike(e));
  auto g = a.grad().toList<float>();
  for (int i = 0; i < 2; i++) {
    double x = i ? 3 : 2, u = x * x, s = std::sin(u);
    double want = (std::cos(s) - u * std::sin(s) * std::cos(u)) * 2 * x;
    EXPECT(near(g[i] / want, 1, 1e-3));
  }""",'a tensor used by the root and again, deeper in the graph, by a function of one operand','consumers of one operand are not counted, so a function runs before its gradient is complete')
