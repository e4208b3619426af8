from mk import *
B('s109-matmul-vec-flag','C12',[('Operation/OpLinalg.cpp',"    prependA = true;\n    transA = false;\n","    prependA = true;\n    transA = transA && shapeB.size() > 1;\n")],
"""  Tensor a(std::vector<float>{1, 2, 3});
  Tensor b = op::reshape(Tensor(std::vector<float>{1, 0, 0, 0, 1, 0, 0, 0, 1}), IntArrayView{3, 3});
  Tensor y = op::matmul(a, b, true, false);
  EXPECT(y.dim() == 1 && y.size(0) == 3);
  EXPECT(near(y.dataPtr<float>()[2], 3, 1e-5));
""",'a 1-d left operand together with the transposition flag and a matrix','the flag is applied to the added dimension and the product is refused')
