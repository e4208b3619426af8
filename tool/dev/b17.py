from mk import *
S='Operation/OpSamplingCpu.h'
FORK="""#include <sys/wait.h>
#include <unistd.h>
#include <functional>
static bool traps(std::function<void()> f) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) { f(); _exit(0); }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFSIGNALED(st);
}
"""
B('s57-topk-store','C21',[(S,"""        valPtr[(o * k + i) * innerSize + in] = vec[i].first;
        idxPtr[(o * k + i) * innerSize + in] = vec[i].second;""","""        valPtr[(o * innerSize + in) * k + i] = vec[i].first;
        idxPtr[(o * innerSize + in) * k + i] = vec[i].second;""")],
"""  Tensor x = Tensor(std::vector<float>{1, 6, 2, 5, 3, 4}).reshape({3, 2});
  auto [v, i] = op::topk(x, 2, 0, true, true);
  auto l = v.toList<float>();
  float w[] = {3, 6, 2, 5};
  for (int k = 0; k < 4; k++) EXPECT(near(l[k], w[k]));
""","topk along a dimension other than the last","results of a line are stored side by side")
B('s58-cumsum-middle','C21',[(S,"""        int64_t offset = o * n * inner + i * inner + in;
        sum += selfPtr[offset];""","""        int64_t offset = o * n + i * inner + in;
        sum += selfPtr[offset];""")],
"""  std::vector<float> d(12, 1.f);
  Tensor x = Tensor(d).reshape({2, 3, 2});
  auto l = op::cumsum(x, 1).toList<float>();
  for (int k = 0; k < 12; k++) EXPECT(near(l[k], (k / 2) % 3 + 1));
""","cumsum along a middle dimension","lines of the second block start inside the first")
B('s59-multinomial-row','C21',[(S,"""        retPtr[b * numSamples + s] = idx;""","""        retPtr[b * std::min(numSamples, n) + s] = idx;""")],
"""  Tensor p = Tensor(std::vector<float>{1, 0, 0, 1}).reshape({2, 2});
  auto l = op::multinomial(p, 3, true).toList<int64_t>();
  for (int k = 0; k < 3; k++) EXPECT(l[k] == 0 && l[3 + k] == 1);
""","more draws than weights, from several rows","draws of the second row overwrite those of the first")
B('s60-topk-window','C21',[(S,"""      std::partial_sort(vec.begin(), vec.begin() + k, vec.end(), cmp);""","""      std::partial_sort(vec.begin(), vec.begin() + k, vec.begin() + std::min<int64_t>(n, 16 * k), cmp);""")],
"""  std::vector<float> d(100);
  for (int i = 0; i < 100; i++) d[i] = i;
  Tensor x(d);
  auto [v, i] = op::topk(x, 2, 0, true, true);
  auto l = v.toList<float>();
  EXPECT(near(l[0], 99) && near(l[1], 98));
""","a line longer than 16 times k","only the first part of a long line is searched")
B('s61-sort-key-index','C21',[(S,"""      if (descending) {
        std::sort(vec.begin(), vec.end(), [](const auto& a, const auto& b) { return a.first > b.first; });""","""      if (descending) {
        std::sort(vec.begin(), vec.end(), [](const auto& a, const auto& b) { return a.first >= b.first; });""")],
FORK+"""int main() {
  std::vector<float> d(200000, 3.f);
  Tensor x(d);
  // a comparator that is no strict order reads outside the buffer on equal keys: run it where that is harmless
  EXPECT(!traps([&] { auto [v, i] = op::sort(x, 0, true); auto l = i.toList<int64_t>(); for (auto q : l) if (q < 0 || q >= 200000) abort(); }));
  return bad;
}
""","descending sort of many equal values","the comparator is not a strict order",extra='')
R('r23-topk-helper',[(S,"""      std::partial_sort(vec.begin(), vec.begin() + k, vec.end(), cmp);
      if (sorted) {
        std::sort(vec.begin(), vec.begin() + k, cmp);
      }""","""      const auto mid = vec.begin() + k;
      if (sorted) {
        std::partial_sort(vec.begin(), mid, vec.end(), cmp);
      } else {
        std::nth_element(vec.begin(), mid - 1, vec.end(), cmp);
      }"""),(S,"""      int64_t base = o * n * innerSize + in;
      std::vector<std::pair<T, int64_t>> vec(n);
      for (int64_t i = 0; i < n; i++) {
        vec[i] = {selfPtr[base + i * innerSize], i};
      }""","""      const T* line = selfPtr + o * n * innerSize + in;
      std::vector<std::pair<T, int64_t>> vec;
      vec.reserve(n);
      for (int64_t i = 0; i < n; i++) {
        vec.emplace_back(line[i * innerSize], i);
      }""")])
R('r24-sort-one-loop',[(S,"""  for (int64_t o = 0; o < outer; o++) {
    for (int64_t in = 0; in < inner; in++) {
      std::vector<std::pair<T, int64_t>> vec(n);
      for (int64_t i = 0; i < n; i++) {
        int64_t offset = o * n * inner + i * inner + in;
        vec[i] = {selfPtr[offset], i};
      }
      if (descending) {
        std::sort(vec.begin(), vec.end(), [](const auto& a, const auto& b) { return a.first > b.first; });
      } else {
        std::sort(vec.begin(), vec.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
      }
      for (int64_t i = 0; i < n; i++) {
        int64_t offset = o * n * inner + i * inner + in;
        valPtr[offset] = vec[i].first;
        idxPtr[offset] = vec[i].second;
      }
    }
  }
""","""  const auto before = [descending](const auto& a, const auto& b) {
    return descending ? b.first < a.first : a.first < b.first;
  };
  std::vector<std::pair<T, int64_t>> line(n);
  for (int64_t l = 0; l < outer * inner; l++) {
    const int64_t start = (l / inner) * n * inner + l % inner;
    for (int64_t i = 0; i < n; i++) {
      line[i].first = selfPtr[start + i * inner];
      line[i].second = i;
    }
    std::stable_sort(line.begin(), line.end(), before);
    int64_t offset = start;
    for (int64_t i = 0; i < n; i++, offset += inner) {
      valPtr[offset] = line[i].first;
      idxPtr[offset] = line[i].second;
    }
  }
"""),(S,"""      T sum = 0;
      for (int64_t i = 0; i < n; i++) {
        int64_t offset = o * n * inner + i * inner + in;
        sum += selfPtr[offset];
        retPtr[offset] = sum;
      }""","""      int64_t offset = o * n * inner + in;
      T sum = 0;
      for (int64_t i = 0; i < n; i++) {
        sum = sum + selfPtr[offset];
        retPtr[offset] = sum;
        offset += inner;
      }""")])
R('r25-multinomial',[(S,"""    std::vector<float> prob(n);
    if (self.dim() == 2) {
      for (int64_t i = 0; i < n; i++) {
        prob[i] = static_cast<float>(selfPtr[b * n + i]);
      }
    } else {
      for (int64_t i = 0; i < n; i++) {
        prob[i] = static_cast<float>(selfPtr[i]);
      }
    }

    for (int64_t s = 0; s < numSamples; s++) {
      std::vector<float> cdf(n);""","""    std::vector<float> prob(n);
    for (int64_t i = 0; i < n; i++) {
      prob[i] = static_cast<float>(selfPtr[b * n + i]);
    }

    std::vector<float> cdf(n);
    for (int64_t s = 0; s < numSamples; s++) {"""),(S,"""      if (self.dim() == 2) {
        retPtr[b * numSamples + s] = idx;
      } else {
        retPtr[s] = idx;
      }
""","""      retPtr[b * numSamples + s] = idx;
"""),(S,"""      int64_t idx = std::distance(cdf.begin(), it);""","""      const int64_t idx = it - cdf.begin();""")])
