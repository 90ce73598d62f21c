// X01: the example games, over the plaintext scheduler.
// @src fbpcf/scheduler/PlaintextScheduler.cpp fbpcf/scheduler/WireKeeper.cpp
// @entry vf_x01_billionaire prop=X01 reach=ok time=150 : all amounts that fill any of three windows of 7 bits of a 32-bit number (bottom, middle, top); totals are 32-bit numbers, as in the game || windows of 9 bits
// @entry vf_x01_billionaire_batch prop=X01 reach=ok time=150 : the same for batches of 1 and 2 || batches of 1 to 4
// @entry vf_x01_string prop=X01 reach=ok time=200 : strings of 0 to 3 characters of width 3, all contents without null characters; length, upper case, shares, one of two chosen by a bit, too long strings refused
// @entry vf_x01_string_batch prop=X01 reach=ok time=200 : the same for batches of 1 and 2 strings of width 3
#include "sched.h"
#include "example/billionaire_problem/BillionaireProblemGame.h"
#include "example/edit_distance/AsciiString.h"
using namespace fbpcf;
static const int kWindow = VF_THOROUGH ? 9 : 7;
static int g_low; // the lowest bit of the window
static uint32_t amount() { return (uint32_t)vf_sym("amount", kWindow) << g_low; }
static void window() { static const int at[] = {0, 11, 32 - kWindow}; g_low = at[vf_split("window", 0, 2)]; }
template <bool B> using Game = billionaire_problem::BillionaireProblemGame<0, B>;
static uint32_t total(uint32_t a, uint32_t b, uint32_t c) { return a + b + c; } // the totals are 32-bit numbers
extern "C" void vf_x01_billionaire() {
  window();
  using G = Game<false>;
  G g(std::make_unique<scheduler::PlaintextScheduler>(mkKeeper(false)));
  uint32_t v[6];
  for (auto& x : v) x = amount();
  uint32_t a = total(v[0], v[1], v[2]), b = total(v[3], v[4], v[5]);
  G::AssetsLists x{v[0], v[1], v[2]}, y{v[3], v[4], v[5]};
  vf_check(g.billionaireProblem(x, y) == (a < b), "whether Bob has more");
  vf_reach("ok");
}
extern "C" void vf_x01_billionaire_batch() {
  window();
  using G = Game<true>;
  G g(std::make_unique<scheduler::PlaintextScheduler>(mkKeeper(false)));
  size_t n = vf_split("batch", 1, VF_THOROUGH ? 4 : 2);
  G::AssetsLists x, y;
  std::vector<bool> want;
  for (auto* l : {&x, &y}) for (auto* c : {&l->cash, &l->stock, &l->property}) for (size_t i = 0; i < n; i++) c->push_back(amount());
  for (size_t i = 0; i < n; i++) {
    uint32_t a = total(x.cash[i], x.stock[i], x.property[i]), b = total(y.cash[i], y.stock[i], y.property[i]);
    want.push_back(a < b);
  }
  auto got = g.billionaireProblem(x, y);
  vf_check(got.size() == n, "one answer for each pair");
  for (size_t i = 0; i < n; i++) vf_check(got[i] == want[i], "whether Bob has more");
  vf_reach("ok");
}
static std::string text(size_t n) {
  std::string s(n, 0);
  for (auto& c : s) { c = (char)vf_sym("char", 8); vf_assume(c != 0); }
  return s;
}
static char upper(char c) { return c >= 'a' && c <= 'z' ? (char)(c - 32) : c; }
static void same(const std::string& got, const std::string& want, const char* what) {
  vf_check(got.size() == want.size(), what);
  for (size_t i = 0; i < want.size(); i++) vf_check(got[i] == want[i], what);
}
template <bool Secret> using Str = edit_distance::AsciiString<3, Secret, 0, false>;
template <bool Secret> using Strs = edit_distance::AsciiString<3, Secret, 0, true>;
extern "C" void vf_x01_string() {
  scheduler::SchedulerKeeper<0>::setScheduler(std::make_unique<scheduler::PlaintextScheduler>(mkKeeper(false)));
  size_t n = vf_split("length", 0, 4), m = vf_split("other", 0, 3);
  std::string a = text(n), b = text(m);
  if (n > 3) {
    vf_check(vf_throws([&] { Str<true> s(a, 0); }) && vf_throws([&] { Str<false> s(a); }), "strings beyond the width are refused");
    return;
  }
  Str<true> s(a, 0), t(b, 1);
  Str<false> p(a), q(b);
  same(p.getValue(), a, "value of a public string");
  vf_check(p.size() == n && p.width() == 3, "length of a public string");
  auto o = s.openToParty(0);
  same(o.getValue(), a, "value of a secret string");
  vf_check(o.size() == n, "length of an opened string");
  vf_check(s.privateSize<3>().openToParty(0).getValue() == n, "secret length");
  std::string up = a;
  for (auto& c : up) c = upper(c);
  same(s.toUpperCase().openToParty(0).getValue(), up, "upper case of a secret string");
  same(p.toUpperCase().getValue(), up, "upper case of a public string");
  bool c = vf_bool("choice");
  frontend::Bit<true, 0> sc(c, 0);
  frontend::Bit<false, 0> pc(c);
  if (m == n) { // the chosen string keeps its length either way
    std::string want = a;
    for (size_t i = 0; i < n; i++) want[i] = c ? b[i] : a[i];
    same(s.mux(sc, t).openToParty(0).getValue(), want, "secret choice of secret strings");
    same(s.mux(pc, q).openToParty(0).getValue(), want, "public choice");
    same(p.mux(sc, q).openToParty(0).getValue(), want, "secret choice of public strings");
  } else {
    auto r = s.mux(sc, t).openToParty(0);
    for (size_t i = 0; i < 3; i++)
      vf_check((char)r[i].getValue() == (c ? (i < m ? b[i] : 0) : (i < n ? a[i] : 0)), "secret choice of strings of different lengths");
  }
  Str<true> again(s.extractAsciiStringShare());
  same(again.openToParty(0).getValue(), a, "a string rebuilt from its shares");
  vf_reach("ok");
}
extern "C" void vf_x01_string_batch() {
  scheduler::SchedulerKeeper<0>::setScheduler(std::make_unique<scheduler::PlaintextScheduler>(mkKeeper(false)));
  size_t k = vf_split("batch", 1, 2);
  std::vector<std::string> a, b, up, chosen;
  std::vector<bool> c;
  for (size_t i = 0; i < k; i++) {
    a.push_back(text(vf_split("length", 0, 3)));
    b.push_back(text(a[i].size()));
    c.push_back(vf_bool("choice"));
    up.push_back(a[i]);
    chosen.push_back(a[i]);
    for (size_t j = 0; j < a[i].size(); j++) { up[i][j] = upper(a[i][j]); chosen[i][j] = c[i] ? b[i][j] : a[i][j]; }
  }
  auto all = [](const std::vector<std::string>& got, const std::vector<std::string>& want, const char* what) {
    vf_check(got.size() == want.size(), what);
    for (size_t i = 0; i < want.size(); i++) same(got[i], want[i], what);
  };
  Strs<true> s(a, 0), t(b, 1);
  Strs<false> p(a);
  vf_check(s.getBatchSize() == k && p.size().size() == k, "batch size");
  all(p.getValue(), a, "values of public strings");
  auto o = s.openToParty(0);
  all(o.getValue(), a, "values of secret strings");
  auto sizes = o.size();
  auto len = s.privateSize<3>().openToParty(0).getValue();
  for (size_t i = 0; i < k; i++) vf_check(p.size()[i] == a[i].size() && sizes[i] == a[i].size() && len[i] == a[i].size(), "lengths");
  all(s.toUpperCase().openToParty(0).getValue(), up, "upper case");
  all(s.mux(frontend::Bit<true, 0, true>(c, 0), t).openToParty(0).getValue(), chosen, "choice");
  Strs<true> again(s.extractAsciiStringShare());
  all(again.openToParty(0).getValue(), a, "strings rebuilt from their shares");
  vf_reach("ok");
}
