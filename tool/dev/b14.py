from mk import *
S='Data/Sampler.h'; L='Data/DataLoader.h'; T='Data/Transform.h'; X='Distributed/DistributedSampler.cpp'
B('s47-sampler-accumulate','C19',[(S,"""    indices_.resize(datasetSize_);
    std::iota(indices_.begin(), indices_.end(), 0);

    std::default""","""    if (indices_.size() != datasetSize_) {
      indices_.resize(datasetSize_);
      std::iota(indices_.begin(), indices_.end(), 0);
    }

    std::default""")],
"""#include "Data/Sampler.h"
int main() {
  data::RandomSampler a(50, 3), b(50, 3);
  a.setEpoch(1); a.setEpoch(2);
  b.setEpoch(2);
  EXPECT(a.indices() == b.indices());
  return bad;
}
""","two samplers that reach the same epoch by different histories of setEpoch","the shuffle starts from the previous epoch's order, so the order of an epoch depends on the epochs visited before (a restart diverges)")
B('s48-dist-seed-rank','C19',[(X,"""    gen.seed(static_cast<unsigned int>(seed_ + epoch_));
    std::shuffle(all""","""    gen.seed(static_cast<unsigned int>(seed_ + epoch_ + rank_));
    std::shuffle(all""")],
"""#include "Distributed/DistributedSampler.h"
#include <set>
int main() {
  std::set<size_t> seen;
  for (size_t r = 0; r < 4; r++) {
    distributed::DistributedSampler s(40, 4, r, true, 7, true);
    for (auto i : s.indices()) EXPECT(seen.insert(i).second);
  }
  EXPECT(seen.size() == 40);
  return bad;
}
""","a shuffled distributed sampler with more than one replica","every replica shuffles differently, so replicas share some indices and miss others",extra='"$PWD/src/Distributed/DistributedSampler.cpp" "$PWD/src/Distributed/TCPStore.cpp" "$PWD/src/Distributed/Store.cpp" "$PWD/src/Distributed/ProcessGroup.cpp" ')
B('s49-compose-input','C19',[(T,"""      ret = trans->process(ret);""","""      ret = trans->process(input);""")],
"""#include "Data/Transform.h"
int main() {
  using namespace data::transforms;
  Compose c{std::make_shared<Normalize>(1.f, 2.f), std::make_shared<Normalize>(3.f, 4.f)};
  Tensor x(std::vector<float>{5.f});
  EXPECT(near(c.process(x).toList<float>()[0], -0.25));
  return bad;
}
""","a composition of two or more transforms","only the last transform is applied")
B('s50-loader-sampler-shuffle','C19',[(L,"""      std::iota(indices_.begin(), indices_.end(), 0);
      if (shuffle) {
        std::shuffle(indices_.begin(), indices_.end(), RandomGeneratorCPU::getGenerator());
      }
    }
""","""      std::iota(indices_.begin(), indices_.end(), 0);
    }
    if (shuffle && indices_.size() > batchSize) {
      std::shuffle(indices_.begin(), indices_.end(), RandomGeneratorCPU::getGenerator());
    }
""")],
"""#include "Data/DataLoader.h"
struct Set : data::Dataset {
  size_t size() const override { return 64; }
  std::vector<Tensor> getItem(size_t idx) override { return {Tensor(std::vector<float>{(float)idx})}; }
};
int main() {
  data::DataLoader l(std::make_shared<Set>(), 8, std::make_shared<data::SequentialSampler>(64));
  float next = 0;
  for (auto [b, t] : l) for (float x : t[0].toList<float>()) EXPECT(x == next++);
  return bad;
}
""","a loader given a sampler, with the shuffle argument left at its default, and more than one batch","the order the sampler asked for is shuffled away")
M='Data/DatasetMNIST.cpp'
B('s51-mnist-signed','C19',[(M,"      auto d = static_cast<uint8_t>(tmp[j]);","      const int d = tmp[j];")],
"""#include "Data/DatasetMNIST.h"
#include <fstream>
static void be(std::ofstream &o, int v) { for (int s = 24; s >= 0; s -= 8) o.put((char)(v >> s)); }
int main() {
  { std::ofstream o("train-images-idx3-ubyte", std::ios::binary); be(o, 0x803); be(o, 1); be(o, 1); be(o, 2); o.put((char)200); o.put(100); }
  { std::ofstream o("train-labels-idx1-ubyte", std::ios::binary); be(o, 0x801); be(o, 1); o.put(7); }
  data::DatasetMNIST d("./", data::DatasetMNIST::TRAIN, nullptr);
  auto v = d.getItem(0)[0].toList<float>();
  EXPECT(near(v[0], 200 / 255.0));
  EXPECT(near(v[1], 100 / 255.0));
  return bad;
}
""","an image with a pixel brighter than 127","bright pixels become negative")
R('r19-data-loops',[(L,"""      for (size_t i = batchIdx * loader_.batchSize_;
           i < batchIdx * loader_.batchSize_ + loader_.batchSize_ && i < loader_.indices_.size(); i++) {
        auto item = loader_.dataset_->getItem(loader_.indices_[i]);
        itemList.resize(item.size());
        for (size_t j = 0; j < item.size(); j++) {
          itemList[j].emplace_back(item[j]);
        }
      }""","""      const size_t first = batchIdx * loader_.batchSize_;
      const size_t last = std::min(first + loader_.batchSize_, loader_.indices_.size());
      for (size_t i = first; i < last; ++i) {
        const std::vector<Tensor> fields = loader_.dataset_->getItem(loader_.indices_[i]);
        if (itemList.size() != fields.size()) {
          itemList.resize(fields.size());
        }
        size_t j = 0;
        for (const auto& field : fields) {
          itemList[j++].push_back(field);
        }
      }"""),(S,"""    std::default_random_engine gen;
    gen.seed(static_cast<unsigned int>(seed_ + epoch_));
    std::shuffle""","""    std::default_random_engine gen(static_cast<unsigned int>(seed_ + epoch_));
    std::shuffle"""),(S,"""  explicit SequentialSampler(size_t datasetSize) {
    indices_.resize(datasetSize);
    std::iota(indices_.begin(), indices_.end(), 0);
  }""","""  explicit SequentialSampler(size_t datasetSize) : indices_(datasetSize) {
    for (size_t i = 0; i < datasetSize; i++) {
      indices_[i] = i;
    }
  }"""),(X,"""    allIndices.resize(totalSize_);
  }
""","""    allIndices.erase(allIndices.begin() + static_cast<int64_t>(totalSize_), allIndices.end());
  }
"""),(X,"""  auto offset = static_cast<int64_t>(numSamples_ * rank_);
  indices_.assign(allIndices.begin() + offset, allIndices.begin() + offset + static_cast<int64_t>(numSamples_));""","""  const size_t offset = numSamples_ * rank_;
  indices_.clear();
  for (size_t i = offset; i < offset + numSamples_; i++) {
    indices_.push_back(allIndices[i]);
  }""")])
