// A small backtracking matcher with RE2's leftmost-first meaning: literals, ., classes, escapes, groups, alternation,
// * + ? (greedy), ^ $ and a leading (?i). ASCII text.
#pragma once
#include <cstdlib>
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>
namespace re2 {
class RE2 {
  struct Node { int kind; std::vector<std::pair<unsigned char, unsigned char>> set; bool neg = false; std::vector<std::shared_ptr<Node>> sub; size_t min = 0, max = 0; int group = -1; };
  enum { CHAR, CAT, ALT, REP, GROUP, BEGIN, END };
  typedef std::shared_ptr<Node> N;
  std::string p; size_t at = 0; int groups = 0; bool fold = false; N root;
  static N make(int k) { auto n = std::make_shared<Node>(); n->kind = k; return n; }
  bool more() { return at < p.size(); }
  N alt() {
    N a = make(ALT); a->sub.push_back(cat());
    while (more() && p[at] == '|') { at++; a->sub.push_back(cat()); }
    return a->sub.size() == 1 ? a->sub[0] : a;
  }
  N cat() {
    N c = make(CAT);
    while (more() && p[at] != '|' && p[at] != ')') {
      if (p.compare(at, 4, "(?i)") == 0) { fold = true; at += 4; continue; }
      N x = atom();
      if (more() && (p[at] == '*' || p[at] == '+' || p[at] == '?')) {
        N r = make(REP); r->min = p[at] == '+'; r->max = p[at] == '?' ? 1 : (size_t)-1; r->sub.push_back(x); at++; x = r;
      }
      c->sub.push_back(x);
    }
    return c;
  }
  void escape(N n) {
    char c = p[at++];
    if (c == 'd') n->set.push_back({'0', '9'});
    else if (c == 'w') { n->set.push_back({'a', 'z'}); n->set.push_back({'A', 'Z'}); n->set.push_back({'0', '9'}); n->set.push_back({'_', '_'}); }
    else if (c == 's') { n->set.push_back({9, 10}); n->set.push_back({12, 13}); n->set.push_back({' ', ' '}); }
    else if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')) abort(); // not modelled
    else n->set.push_back({(unsigned char)c, (unsigned char)c});
  }
  N atom() {
    char c = p[at++];
    if (c == '^') return make(BEGIN);
    if (c == '$') return make(END);
    if (c == '(') {
      N g = make(GROUP);
      if (p.compare(at, 2, "?:") == 0) at += 2; else g->group = groups++;
      g->sub.push_back(alt());
      at++; // )
      return g;
    }
    N n = make(CHAR);
    if (c == '.') { n->neg = true; n->set.push_back({'\n', '\n'}); return n; }
    if (c == '\\') { escape(n); return n; }
    if (c == '[') {
      if (p[at] == '^') { n->neg = true; at++; }
      bool first = true;
      while (first || p[at] != ']') {
        first = false;
        if (p[at] == '\\') { at++; escape(n); continue; }
        unsigned char lo = p[at++], hi = lo;
        if (p[at] == '-' && p[at + 1] != ']') { hi = p[at + 1]; at += 2; }
        n->set.push_back({lo, hi});
      }
      at++;
      return n;
    }
    n->set.push_back({(unsigned char)c, (unsigned char)c});
    return n;
  }
  struct M {
    const std::string& t; bool fold; std::vector<std::pair<size_t, size_t>> caps;
    typedef std::function<bool(size_t)> K;
    bool one(const N& n, unsigned char c) {
      bool in = false;
      for (auto& r : n->set) {
        in |= (c >= r.first) & (c <= r.second);
        if (fold) {
          unsigned char l = (c >= 'A') & (c <= 'Z') ? c + 32 : c, u = (c >= 'a') & (c <= 'z') ? c - 32 : c;
          in |= ((l >= r.first) & (l <= r.second)) | ((u >= r.first) & (u <= r.second));
        }
      }
      return in != n->neg;
    }
    bool seq(const N& n, size_t k, size_t i, const K& next) {
      if (k == n->sub.size()) return next(i);
      return m(n->sub[k], i, [&, k](size_t j) { return seq(n, k + 1, j, next); });
    }
    bool rep(const N& n, size_t count, size_t i, const K& next) {
      if (count < n->max && m(n->sub[0], i, [&, count, i](size_t j) { return j > i && rep(n, count + 1, j, next); })) return true;
      return count >= n->min && next(i);
    }
    bool m(const N& n, size_t i, const K& next) {
      switch (n->kind) {
        case CHAR: return i < t.size() && one(n, t[i]) && next(i + 1);
        case CAT: return seq(n, 0, i, next);
        case ALT: for (auto& s : n->sub) if (m(s, i, next)) return true; return false;
        case REP:
          if (n->sub[0]->kind == CHAR) { // the longest run first
            size_t e = i;
            while (e < t.size() && e - i < n->max && one(n->sub[0], t[e])) e++;
            for (size_t k = e; k + 1 > i + n->min; k--) { if (next(k)) return true; if (k == 0) break; }
            return false;
          }
          return rep(n, 0, i, next);
        case GROUP: return m(n->sub[0], i, [&, i](size_t j) {
            if (n->group < 0) return next(j);
            auto old = caps[n->group]; caps[n->group] = {i, j};
            if (next(j)) return true;
            caps[n->group] = old; return false; });
        case BEGIN: return i == 0 && next(i);
        case END: return i == t.size() && next(i);
      }
      return false;
    }
  };
  static bool run(const std::string& t, const RE2& re, std::vector<std::pair<size_t, size_t>>& caps, bool whole, size_t from = 0) {
    M x{t, re.fold, std::vector<std::pair<size_t, size_t>>(re.groups, {0, 0})};
    bool ok = x.m(re.root, from, [&](size_t j) { return !whole || j == t.size(); });
    caps = x.caps;
    return ok;
  }
  static void store(const std::string&, std::vector<std::pair<size_t, size_t>>&, size_t) {}
  template <class... R> static void store(const std::string& t, std::vector<std::pair<size_t, size_t>>& c, size_t k, std::string* s, R... rest) {
    if (s) *s = t.substr(c[k].first, c[k].second - c[k].first);
    store(t, c, k + 1, rest...);
  }
 public:
  RE2(const char* s) : RE2(std::string(s)) {}
  RE2(const std::string& s) : p(s) { root = alt(); if (at != p.size()) abort(); }
  template <class... A> static bool FullMatch(const std::string& t, const RE2& re, A... out) {
    std::vector<std::pair<size_t, size_t>> c;
    if (!run(t, re, c, true)) return false;
    store(t, c, 0, out...);
    return true;
  }
  template <class... A> static bool PartialMatch(const std::string& t, const RE2& re, A... out) {
    std::vector<std::pair<size_t, size_t>> c;
    for (size_t i = 0; i <= t.size(); i++) if (run(t, re, c, false, i)) { store(t, c, 0, out...); return true; }
    return false;
  }
};
} // namespace re2
using re2::RE2;
