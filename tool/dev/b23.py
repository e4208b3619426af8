from mk import *
DD='''#define private public
#include "Distributed/DistributedModule.h"
#undef private
using namespace tinytorch::distributed;
// a backend of W replicas that all hold the same values: a sum multiplies by W, and only when its work is waited for
struct FakeWork : Work {
  std::function<void()> f;
  bool wait(std::chrono::milliseconds) override { if (f) f(); f = nullptr; return true; }
};
struct FakeBackend : Backend {
  FakeBackend(int w) : Backend(0, w) {}
  int root = -1, reduces = 0;
  void setTimeout(std::chrono::milliseconds) override {}
  std::string getBackendName() const override { return "fake"; }
  std::shared_ptr<BackendOptions> getBackendOptions() override { return nullptr; }
  std::shared_ptr<Work> broadcast(std::vector<Tensor>& t, const BroadcastOptions& o) override { root = o.rootRank; return std::make_shared<FakeWork>(); }
  std::shared_ptr<Work> allReduce(std::vector<Tensor>& t, const AllReduceOptions&) override {
    auto w = std::make_shared<FakeWork>(); Tensor x = t[0]; float k = (float)size_; reduces++;
    w->f = [x, k]() mutable { float* p = x.dataPtr<float>(); for (int64_t i = 0; i < x.numel(); i++) p[i] *= k; };
    return w;
  }
};
static std::shared_ptr<DistributedProcessGroup> group(int w, std::shared_ptr<FakeBackend>& be) {
  auto g = std::make_shared<DistributedProcessGroup>();
  g->processGroup_ = std::make_shared<ProcessGroup>(nullptr, 0, w);
  be = std::make_shared<FakeBackend>(w);
  g->processGroup_->setBackend(DeviceType::CPU, NCCL, std::shared_ptr<Backend>(be));
  return g;
}
static std::vector<float> vals(const Tensor& t) { const float* p = t.dataPtr<float>(); return std::vector<float>(p, p + t.numel()); }
static TensorPtr param(int64_t n, float v, std::vector<Tensor>& keep) { keep.push_back(Tensor::full({n}, v, options::requiresGrad(true))); return nullptr; }
'''
EX='-include "$D/stub.h" "$PWD/src/Distributed/Reducer.cpp" "$PWD/src/Distributed/DistributedModule.cpp" "$PWD/src/Distributed/ProcessGroup.cpp" '
F='Distributed/Reducer.cpp'
MAIN='''struct Net : nn::Module {
  nn::Linear a{3, 4}, b{4, 2};
  Net() { registerModules({{"a", a}, {"b", b}}); 
    float v = 0.1f; for (auto* p : parameters()) { float* d = p->dataPtr<float>(); for (int64_t i = 0; i < p->numel(); i++) d[i] = (v += 0.07f); } }
  Tensor forward(const Tensor& x) override { return b(a(x)); }
};
static std::vector<std::vector<float>> run(bool ddp, int64_t cap, int steps, int* reduces = nullptr, int* root = nullptr) {
  Net n; std::shared_ptr<FakeBackend> be; auto g = group(4, be);
  std::unique_ptr<DistributedModule> d;
  if (ddp) d = std::make_unique<DistributedModule>(n, g, 2, cap);
  if (root) *root = be->root;
  std::vector<std::vector<float>> out;
  for (int s = 0; s < steps; s++) {
    n.zeroGrad();
    Tensor x = Tensor::full({5, 3}, 0.5f + s);
    Tensor y = ddp ? d->forward(x) : n.forward(x);
    function::sum(y * y).backward();
    for (auto* p : n.parameters()) out.push_back(vals(p->grad()));
  }
  if (reduces) *reduces = be->reduces;
  return out;
}
static bool same(const std::vector<std::vector<float>>& a, const std::vector<std::vector<float>>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) { if (a[i].size() != b[i].size()) return false; for (size_t j = 0; j < a[i].size(); j++) if (!near(a[i][j], b[i][j], 1e-3 * (1 + std::fabs(b[i][j])))) return false; }
  return true;
}
int main() {
  for (int64_t cap : {1, 20, 40, 50, 60, 70, 1 << 20}) { bool ok = same(run(true, cap, 2), run(false, 0, 2)); if (!ok) printf("cap %%d\\n", (int)cap); EXPECT(ok); }
  %s
  return bad;
}
'''
B('s99-ddp-div-bucket','C24',[(F,"bucket.flatBuffer /= static_cast<float>(worldSize);","if (bucket.params.size() > 1) {\n        bucket.flatBuffer /= static_cast<float>(worldSize);\n      }")],DD+MAIN%'','a bucket that holds a single parameter (small byte limit)','the gradient is the sum instead of the average over the replicas',EX)
B('s100-ddp-offset','C24',[(F,"    offset += size;\n    bucket.totalSize += size;","    offset += (size + 3) / 4 * 4;\n    bucket.totalSize = offset;")],DD+'',"","",EX) if 0 else None
B('s101-ddp-clear-bytes','C24',[(F,"      currentParams.clear();\n      currentBytes = 0;","      currentParams.clear();\n      currentBytes = -paramBytes;")],DD+MAIN%'''{ Net n; std::shared_ptr<FakeBackend> be; auto g = group(2, be); DistributedModule d(n, g, 0, 50);
    for (auto& b : d.reducer_->buckets_) { int64_t t = 0; for (auto& p : b.params) t += p->nbytes(); EXPECT(b.params.size() == 1 || t <= 50); } }''','at least one full bucket before the last','a bucket becomes larger than the byte limit',EX)
B('s102-ddp-ready','C24',[(F,"    bucket.readyCount = 0;\n    bucket.reduceStarted = false;","    if (bucket.reduceStarted) {\n      bucket.readyCount = 0;\n    }\n    bucket.reduceStarted = false;"),(F,"    bucket.reduceStarted = true;\n    reduceBucket(bucketIdx);","    bucket.readyCount = 0;\n    bucket.reduceStarted = bucket.params.size() > 1;\n    reduceBucket(bucketIdx);")],DD+MAIN%'','','',EX) if 0 else None
B('s103-ddp-root','C24',[('Distributed/DistributedModule.cpp',"reducer_->broadcastParameters(rootRank_);","reducer_->broadcastParameters();")],DD+MAIN%'int root = -1; run(true, 1 << 20, 0, nullptr, &root); EXPECT(root == 2);','a root rank other than 0','the replicas start from the parameters of rank 0',EX)
B('s104-ddp-nowait','C24',[(F,"      bool success = bucket.work->wait();\n      ASSERT(success);","      bool success = bucket.work->isSuccess();\n      ASSERT(success);")],DD+MAIN%'','a collective that has not finished when the last gradient becomes ready','the buffer is read while it is being reduced',EX)
for i in ('s99-ddp-div-bucket','s101-ddp-clear-bytes','s103-ddp-root','s104-ddp-nowait'):
    open('/verif/seeded/%s/stub.h'%i,'w').write('#include <functional>\nnamespace tinytorch { namespace cuda { struct CudaDeviceGuard { CudaDeviceGuard(int) {} }; } }\n')
