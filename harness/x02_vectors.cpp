// X02: element-wise helpers and metric totals.
// @entry vf_x02_vectors prop=X02 reach=eq,ne : lengths 0 to 4, all 64-bit elements || lengths 0 to 8
// @entry vf_x02_functional prop=X02 reach=empty,ok : lengths 0 to 4, all 64-bit elements || lengths 0 to 8
// @entry vf_x02_metrics prop=X02 reach=ok : up to 3 recorders with up to 3 of 3 metric names (numbers and texts), all 32-bit values
#include "vf.h"
#include "fbpcf/common/FunctionalUtil.h"
#include "fbpcf/common/VectorUtil.h"
#include "fbpcf/util/MetricCollector.h"
static const int N = VF_THOROUGH ? 8 : 4;
static std::vector<uint64_t> symv(const char* nm, size_t n) {
  std::vector<uint64_t> v(n);
  for (auto& x : v) x = vf_sym(nm, 64);
  return v;
}
extern "C" void vf_x02_vectors() {
  size_t n = vf_split("n", 0, N), m = vf_split("m", 0, N);
  auto a = symv("a", n), b = symv("b", m);
  auto a0 = a, b0 = b;
  std::function<uint64_t(uint64_t, uint64_t)> f = [](uint64_t x, uint64_t y) { return x * 3 - y; };
  if (n != m) {
    vf_check(vf_throws([&] { fbpcf::vector::Add(a, b); }) && vf_throws([&] { fbpcf::vector::Xor(a, b); }) && vf_throws([&] { fbpcf::vector::apply(a, b, f); }), "unequal lengths are rejected");
    vf_reach("ne");
    return;
  }
  auto s = fbpcf::vector::Add(a, b), x = fbpcf::vector::Xor(a, b), p = fbpcf::vector::apply(a, b, f);
  vf_check(s.size() == n && x.size() == n && p.size() == n, "length of the result");
  for (size_t i = 0; i < n; i++) {
    vf_check(s[i] == a0[i] + b0[i], "sum");
    vf_check(x[i] == (a0[i] ^ b0[i]), "xor");
    vf_check(p[i] == a0[i] * 3 - b0[i], "function of the operands in order");
  }
  vf_reach("eq");
}
extern "C" void vf_x02_functional() {
  size_t n = vf_split("n", 0, N);
  auto a = symv("a", n);
  std::function<uint8_t(const uint64_t&)> f = [](const uint64_t& x) { return (uint8_t)(x >> 8); };
  auto m = fbpcf::functional::map<uint64_t, uint8_t>(a, f);
  vf_check(m.size() == n, "length of the mapped vector");
  for (size_t i = 0; i < n; i++) vf_check(m[i] == (uint8_t)(a[i] >> 8), "mapped element");
  std::function<uint64_t(const uint64_t&, const uint64_t&)> g = [](const uint64_t& x, const uint64_t& y) { return (x << 1 | x >> 63) ^ y; }; // neither commutative nor associative
  if (!n) {
    vf_check(vf_throws([&] { fbpcf::functional::reduce(a, g); }), "reducing nothing is rejected");
    vf_reach("empty");
    return;
  }
  uint64_t e = a[0];
  for (size_t i = 1; i < n; i++) e = (e << 1 | e >> 63) ^ a[i];
  vf_check(fbpcf::functional::reduce(a, g) == e, "left fold of the elements");
  vf_reach("ok");
}
struct Rec : fbpcf::util::IMetricRecorder {
  folly::dynamic d = folly::dynamic::object;
  folly::dynamic getMetrics() const override { return d; }
};
extern "C" void vf_x02_metrics() {
  fbpcf::util::MetricCollector c("pre");
  const char* names[] = {"x", "y", "z"};
  int64_t sum[3] = {0, 0, 0};
  bool any[3] = {false, false, false};
  int n = vf_split("recorders", 0, VF_THOROUGH ? 3 : 2);
  std::vector<int> mask(n);
  std::vector<std::vector<int64_t>> vals(n, std::vector<int64_t>(3));
  for (int i = 0; i < n; i++) {
    auto r = std::make_shared<Rec>();
    mask[i] = vf_split("mask", 0, 7);
    for (int k = 0; k < 3; k++)
      if (mask[i] >> k & 1) {
        vals[i][k] = (int32_t)vf_sym("v", 32);
        r->d.insert(names[k], vals[i][k]);
        sum[k] += vals[i][k];
        any[k] = true;
      }
    r->d.insert("text", "abc");
    c.addNewRecorder("r" + std::to_string(i), r);
  }
  vf_check(c.getPrefix() == "pre", "prefix");
  auto agg = c.aggregateMetrics();
  size_t expect = 0;
  for (int k = 0; k < 3; k++) {
    std::string key = std::string("pre.") + names[k];
    expect += any[k];
    vf_check(agg.count(key) == (any[k] ? 1u : 0u), "a total for exactly the metrics reported");
    if (any[k]) vf_check(agg[key].asInt() == sum[k], "total of a metric");
  }
  vf_check(agg.size() == expect, "nothing but totals");
  auto all = c.collectMetrics();
  vf_check(all.size() == (size_t)n, "one group for each recorder");
  for (int i = 0; i < n; i++) {
    auto& g = all["pre.r" + std::to_string(i)];
    for (int k = 0; k < 3; k++)
      if (mask[i] >> k & 1) vf_check(g[names[k]].asInt() == vals[i][k], "metric of a recorder");
  }
  vf_reach("ok");
}
