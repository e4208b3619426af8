from mk import *
R('r15-api-helper',[('Tensor/Tensor.cpp',"Tensor Tensor::operator+(const Scalar &other) const { return function::add(*this, scalar(other, options().noGrad())); }",
"""// a scalar operand as an untracked tensor like `t`
static Tensor operandLike(const Tensor &t, const Scalar &s) {
  auto opts = t.options().noGrad();
  return Tensor::scalar(s, opts);
}

Tensor Tensor::operator+(const Scalar &other) const {
  auto rhs = operandLike(*this, other);
  return function::add(*this, rhs);
}"""),
('Tensor/Tensor.cpp',"Tensor Tensor::operator-(const Scalar &other) const { return function::sub(*this, scalar(other, options().noGrad())); }","Tensor Tensor::operator-(const Scalar &other) const { return function::sub(*this, operandLike(*this, other)); }"),
('Tensor/Tensor.cpp',"void Tensor::operator+=(const Tensor &other) { inplaceSet(function::add(*this, other)); }","""void Tensor::operator+=(const Tensor &other) {
  auto result = function::add(*this, other);
  inplaceSet(std::move(result));
}"""),
('Tensor/Tensor.cpp',"Tensor Tensor::operator<=(const Tensor &other) const { return function::le(*this, other); }","""Tensor Tensor::operator<=(const Tensor &other) const {
  const Tensor &lhs = *this;
  return function::le(lhs, other);
}""")])
