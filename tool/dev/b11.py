from mk import *
B('s31-sdpa-scale','C15',[('Function/FuncNNLayer.h',"""    op::mulInplace(attnWeight, Tensor::scalar(scaleFactor, attnWeight.options()));

""",""),('Function/FuncNNLayer.h',"""      op::addInplace(attnWeight, attnBias, 1);
    }
    attnWeight = op::softmax(attnWeight, -1);""","""      op::addInplace(attnWeight, attnBias, 1);
    }
    op::mulInplace(attnWeight, Tensor::scalar(scaleFactor, attnWeight.options()));
    attnWeight = op::softmax(attnWeight, -1);""")],'''
int main() {
  std::vector<float> q = {1, 2, 3, 4}, k = {1, 0, 0, 1}, v = {1, 0, 0, 1}, m = {1, 0, 0, 2};
  Tensor Q(q), K(k), V(v), M(m);
  Q.reshape_({2, 2}); K.reshape_({2, 2}); V.reshape_({2, 2}); M.reshape_({2, 2});
  auto y = function::sdpAttention(Q, K, V, false, M).toList<float>();
  double s = 1 / std::sqrt(2.0);
  double a = std::exp(1 * s + 1), b = std::exp(2 * s);
  EXPECT(near(y[0], a / (a + b)) && near(y[1], b / (a + b)));
  return bad;
}''','an additive attention mask with finite values','the mask is scaled together with the attention scores')
B('s32-pool-pad','C15',[('Function/FuncNNLayer.h',"""    auto outW = (width - kernel.w + 2 * padding.w) / stride.w + 1;

    auto col = op::im2col(input, kernel, stride, padding);
    col.reshape_({-1, kernel.h * kernel.w});""","""    auto outW = (width + 2 * padding.h - kernel.w) / stride.w + 1;

    auto col = op::im2col(input, kernel, stride, padding);
    col.reshape_({-1, kernel.h * kernel.w});""")],'''
int main() {
  std::vector<float> d = {1, 2, 3, 4, 5, 6, 7, 8};
  Tensor x(d);
  x.reshape_({1, 1, 2, 4});
  auto y = function::maxPool2d(x, Dim2D(1, 2), Dim2D(1, 2), Dim2D(0, 1));
  EXPECT(y.shape() == (SizeVector{1, 1, 2, 3}) && y.numel() == 6);
  EXPECT(near(y.toList<float>()[1], 3));
  return bad;
}''','maxPool2d with different vertical and horizontal padding','the output width is computed from the vertical padding')
B('s33-dropout-back','C15',[('Function/FuncNNLayer.h',"""input.addGrad(op::dropoutMasked(grad, mask, 1.f - p));""","""input.addGrad(op::dropoutMasked(grad, mask, p));""")],'''
int main() {
  std::vector<float> d(64, 1.f);
  Tensor x(d, options::requiresGrad(true));
  auto y = function::dropout(x, 0.2f, true);
  function::sum(y).backward();
  auto g = x.grad().toList<float>();
  auto o = y.toList<float>();
  for (int i = 0; i < 64; i++) EXPECT(near(g[i], o[i]));
  return bad;
}''','dropout with p other than 0.5, in training','the gradient is scaled by 1 / p instead of 1 / (1 - p)')
R('r16-layer-helper',[('Function/FuncNNLayer.h',"""class FuncMaxPool : public""","""// number of window positions along both image axes
inline Dim2D windowGrid(int64_t height, int64_t width, Dim2D kernel, Dim2D stride, Dim2D padding) {
  auto h = (height + 2 * padding.h - kernel.h) / stride.h + 1;
  auto w = (width + 2 * padding.w - kernel.w) / stride.w + 1;
  return {h, w};
}

class FuncMaxPool : public"""),
('Function/FuncNNLayer.h',"""    auto outH = (height - kernel.h + 2 * padding.h) / stride.h + 1;
    auto outW = (width - kernel.w + 2 * padding.w) / stride.w + 1;

    auto col = op::im2col(input, kernel, stride, padding);

    auto colW""","""    auto grid = windowGrid(height, width, kernel, stride, padding);
    auto outH = grid.h;
    auto outW = grid.w;

    auto col = op::im2col(input, kernel, stride, padding);

    auto colW"""),
('Function/FuncNNLayer.h',"""    if (isCausal) {
      ASSERT(!attnMask.defined());
      attnBias = Tensor::zeros({L, S}, query.options().noGrad());""","""    const auto plain = query.options().noGrad();
    if (isCausal) {
      ASSERT(!attnMask.defined());
      attnBias = Tensor::zeros({L, S}, plain);"""),
('Function/FuncNNLayer.h',"""    if (dropoutP > 0.f) {
      // op::dropout takes the probability to keep an element
      attnWeight = op::dropout(attnWeight, 1.f - dropoutP);
    }
    return op::matmul(attnWeight, value, false, false);""","""    if (dropoutP <= 0.f) {
      return op::matmul(attnWeight, value, false, false);
    }
    auto keep = 1.f - dropoutP;
    return op::matmul(op::dropout(attnWeight, keep), value, false, false);"""),
('Function/FuncNNLayer.h',"""    if (weight.requiresGrad()) {
      auto col = ctx->popData().toTensor();
      auto gradColW = op::matmul(col, gradW, true, false);
      auto weightGrad = op::reshape(gradColW.permute(), weight.shape());
      weight.addGrad(std::move(weightGrad));
    }""","""    if (weight.requiresGrad()) {
      auto col = ctx->popData().toTensor();
      weight.addGrad(op::reshape(op::matmul(gradW, col, true, false), weight.shape()));
    }""")])
