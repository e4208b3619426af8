from mk import *
L='Function/FuncNNLayer.h'
B('s90-loader-fields','C19',[('Data/DataLoader.h',"        itemList.resize(item.size());","        if (itemList.size() < item.size()) itemList.resize(2);")],
"""  struct DS : data::Dataset {
    size_t size() const override { return 3; }
    std::vector<Tensor> getItem(size_t i) override { return {Tensor::scalar((float)i)}; }
  };
  auto ds = std::make_shared<DS>();
  data::DataLoader loader(ds, 2, nullptr, false);
  size_t n = 0;
  for (auto [k, batch] : loader) {
    n++;
    EXPECT(batch.size() == 1);
  }
  EXPECT(n == 2);
""",'a dataset whose items have one tensor only','each batch carries a second, undefined field',extra='-include numeric -include Data/DataLoader.h ')
B('s100-dropout-one','C18',[('Module/Basic.cpp',"return function::dropout(input, p_, training_);","return function::dropout(input, p_, training_ && p_ < 1.f);")],
"""  nn::Dropout d(1.0f);
  Tensor x = Tensor::ones({50});
  Tensor y = d(x);
  double s = 0;
  bool ones = true;
  for (int i = 0; i < 50; i++) if (y.dataPtr<float>()[i] != 1.f) ones = false;
  EXPECT(!ones);
""",'a dropout layer with probability 1','everything passes instead of nothing')
B('s102-attn-decode','C15',[(L,"return FuncSDPAttention::apply(query, key, value, isCausal, attnMask, dropoutP, scale);","return FuncSDPAttention::apply(query, key, value, isCausal && query.size(-2) > 1, attnMask, dropoutP, scale);")],
"""  Tensor q = Tensor::ones({1, 2}), k = Tensor::ones({3, 2});
  Tensor v(std::vector<float>{1, 5, 9});
  v = op::reshape(v, IntArrayView{3, 1});
  Tensor y = function::sdpAttention(q, k, v, true);
  printf("%f\\n", y.dataPtr<float>()[0]);
  EXPECT(near(y.dataPtr<float>()[0], 1, 1e-5));
""",'causal attention of a single query over several keys','the later keys are attended to')
B('s108-embed-batch','C15',[(L,"return op::indexAdvance(weight, ArrayView<Tensor>{input});","return op::indexAdvance(weight, ArrayView<Tensor>{op::flatten(input, 0, -1)});")],
"""  Tensor w = Tensor::ones({5, 3});
  Tensor ids = op::reshape(Tensor(std::vector<int64_t>{0, 1, 2, 3}), IntArrayView{2, 2});
  Tensor y = function::embedding(ids, w);
  EXPECT(y.dim() == 3 && y.size(0) == 2 && y.size(1) == 2 && y.size(2) == 3);
""",'a batch of token sequences','the batch and sequence dimensions are merged')
