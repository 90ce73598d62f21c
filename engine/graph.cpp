#include "graph.h"
extern "C" {
#include <picosat/picosat.h>
}
#include <signal.h>
#include <array>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <functional>
#include <set>

Graph G;
Stats qstats;
PathSolver PS;
double g_queryBudget = 120;
std::string g_tmpdir = "/tmp";

static uint64_t rngState = 0x9E3779B97F4A7C15ull;
static uint64_t rnd64() {
  uint64_t z = (rngState += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static const uint32_t XLIM = 40;

Graph::Graph() {
  nodes.push_back(Node{0, 0, 0, 0, 0, 0});
  htab.assign(1 << 12, 0);
}
Lit Graph::newVar(bool uninit) {
  uint32_t id = nodes.size();
  uint64_t s = rnd64();
  // pattern 0: all zero, pattern 1: all one
  s = (s & ~3ull) | 2ull;
  nodes.push_back(Node{1, (uint8_t)uninit, 0, (uint32_t)vars.size(), 0, s});
  vars.push_back(id);
  return id * 2;
}
static inline uint64_t hmix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}
static uint64_t nodeHash(uint8_t kind, uint32_t a, uint32_t b, const uint32_t* ops, uint32_t n) {
  uint64_t h = kind;
  if (kind == 3) {
    for (uint32_t i = 0; i < n; i++) h = hmix(h, ops[i]);
  } else
    h = hmix(hmix(h, a), b);
  return h;
}
void Graph::rehash() {
  std::vector<uint32_t> old;
  old.swap(htab);
  htab.assign(old.size() * 2, 0);
  uint64_t m = htab.size() - 1;
  for (uint32_t id : old)
    if (id) {
      Node& x = nodes[id];
      uint64_t h = nodeHash(x.kind, x.a, x.b, x.kind == 3 ? &pool[x.a] : nullptr, x.n) & m;
      while (htab[h]) h = (h + 1) & m;
      htab[h] = id;
    }
}
uint32_t Graph::lookup(uint8_t kind, uint64_t h, uint32_t a, uint32_t b, const uint32_t* ops, uint32_t n) {
  uint64_t m = htab.size() - 1;
  h &= m;
  while (uint32_t id = htab[h]) {
    Node& x = nodes[id];
    if (x.kind == kind) {
      if (kind == 3) {
        if (x.n == n && !memcmp(&pool[x.a], ops, n * 4)) return id;
      } else if (x.a == a && x.b == b)
        return id;
    }
    h = (h + 1) & m;
  }
  uint32_t id = nodes.size();
  if (kind == 3) {
    uint32_t off = pool.size();
    uint64_t s = 0;
    for (uint32_t i = 0; i < n; i++) s ^= nodes[ops[i]].sig;
    pool.insert(pool.end(), ops, ops + n);
    nodes.push_back(Node{3, 0, (uint16_t)n, off, 0, s});
  } else if (kind == 2)
    nodes.push_back(Node{2, 0, 2, a, b, sig(a) & sig(b)});
  else
    nodes.push_back(Node{4, 0, 2, a, b, nodes[a].sig ^ nodes[b].sig});
  htab[h] = id;
  if (++hcount * 2 > htab.size()) rehash();
  return id;
}
Lit Graph::land(Lit a, Lit b) {
  if (a > b) std::swap(a, b);
  if (a == 0) return 0;
  if (a == 1) return b;
  if (a == b) return a;
  if (a == (b ^ 1)) return 0;
  // two-level rules
  for (int k = 0; k < 2; k++) {
    Lit x = k ? b : a, y = k ? a : b;
    Node& ny = nodes[y >> 1];
    if (ny.kind == 2) {
      if (!(y & 1)) {
        if (ny.a == x || ny.b == x) return y;
        if (ny.a == (x ^ 1) || ny.b == (x ^ 1)) return 0;
      } else {
        if (ny.a == (x ^ 1) || ny.b == (x ^ 1)) return x;
        if (ny.a == x) return land(x, ny.b ^ 1);
        if (ny.b == x) return land(x, ny.a ^ 1);
      }
    }
  }
  if (a > b) std::swap(a, b);
  // Xor operands that overlap: of x, y and z = x ^ y any two give the same product up to linear terms; use the two simplest,
  // so that all forms of a majority (carries, borrows, comparisons) come out as the same node.
  if (!noOverlap) {
    Lit x = a & ~1u, y = b & ~1u;
    auto size = [&](Lit l) -> uint32_t { return nodes[l >> 1].kind == 3 ? nodes[l >> 1].n : 1; };
    uint32_t sx = size(x), sy = size(y);
    if (sx + sy > 2 && sx <= 12 && sy <= 12) {
      uint32_t t[2] = {(uint32_t)(x >> 1), (uint32_t)(y >> 1)}, common = 0;
      const uint32_t* px = nodes[x >> 1].kind == 3 ? &pool[nodes[x >> 1].a] : &t[0];
      const uint32_t* py = nodes[y >> 1].kind == 3 ? &pool[nodes[y >> 1].a] : &t[1];
      for (uint32_t i = 0, j = 0; i < sx && j < sy;) { if (px[i] == py[j]) { common++; i++; j++; } else if (px[i] < py[j]) i++; else j++; }
      // only over plain terms: an operand that is itself a long sum has no canonical form here
      for (uint32_t i = 0; i < sx && common; i++) if (nodes[px[i]].kind == 4) common = 0;
      for (uint32_t i = 0; i < sy && common; i++) if (nodes[py[i]].kind == 4) common = 0;
      if (common) {
        Lit z = lxor(x, y), zn = z & 1;
        z &= ~1u;
        uint32_t sz = size(z);
        auto key = [&](Lit l, uint32_t s) { return ((uint64_t)s << 32) | l; };
        uint64_t kx = key(x, sx), ky = key(y, sy), kz = key(z, sz);
        if (kz < kx || kz < ky) {
          // product of the positive literals
          noOverlap++;
          Lit p;
          if (kx >= ky) { // drop x: x = y ^ z ^ zn;  xy = y(z ^ zn) ^ y = yz ^ zn y ^ y
            p = lxor(land(y, z), zn ? 0 : y);
          } else p = lxor(land(x, z), zn ? 0 : x);
          noOverlap--;
          Lit r = p;
          if (a & 1) r = lxor(r, y);
          if (b & 1) r = lxor(r, x);
          if ((a & 1) && (b & 1)) r ^= 1;
          return r;
        }
        if ((a | b) & 1) { // already the simplest pair: keep the product of the positive literals
          noOverlap++;
          Lit r = land(x, y);
          noOverlap--;
          if (a & 1) r = lxor(r, y);
          if (b & 1) r = lxor(r, x);
          if ((a & 1) && (b & 1)) r ^= 1;
          return r;
        }
      }
    }
  }
  return lookup(2, nodeHash(2, a, b, nullptr, 0), a, b, nullptr, 0) * 2;
}
Lit Graph::lxor(Lit a, Lit b) {
  Lit neg = (a ^ b) & 1;
  a &= ~1u;
  b &= ~1u;
  if (a == 0) return b ^ neg;
  if (b == 0) return a ^ neg;
  if (a == b) return neg;
  uint32_t x = a >> 1, y = b >> 1;
  uint32_t xa[1] = {x}, ya[1] = {y};
  // copy operands: the pool may grow below
  const uint32_t *px = xa, *py = ya;
  uint32_t nx = 1, ny = 1;
  if (nodes[x].kind == 3) { px = &pool[nodes[x].a]; nx = nodes[x].n; }
  if (nodes[y].kind == 3) { py = &pool[nodes[y].a]; ny = nodes[y].n; }
  uint32_t out[2 * XLIM + 2];
  uint32_t n = 0;
  uint32_t i = 0, j = 0;
  while (i < nx || j < ny) {
    if (j >= ny || (i < nx && px[i] < py[j])) out[n++] = px[i++];
    else if (i >= nx || py[j] < px[i]) out[n++] = py[j++];
    else { i++; j++; }
  }
  if (n == 0) return neg;
  if (n == 1) return (out[0] * 2) ^ neg;
  if (n <= XLIM) return (lookup(3, nodeHash(3, 0, 0, out, n), 0, 0, out, n) * 2) ^ neg;
  // too large: opaque pair
  if (x > y) std::swap(x, y);
  Node &nx2 = nodes[x], &ny2 = nodes[y];
  if (ny2.kind == 4) { // (p ^ q) ^ p = q
    if (ny2.a == x) return (ny2.b * 2) ^ neg;
    if (ny2.b == x) return (ny2.a * 2) ^ neg;
  }
  if (nx2.kind == 4) {
    if (nx2.a == y) return (nx2.b * 2) ^ neg;
    if (nx2.b == y) return (nx2.a * 2) ^ neg;
  }
  return (lookup(4, nodeHash(4, x, y, nullptr, 0), x, y, nullptr, 0) * 2) ^ neg;
}
Lit Graph::mux(Lit c, Lit t, Lit f) {
  if (c == 1) return t;
  if (c == 0) return f;
  if (t == f) return t;
  if (t == 1) return lor(c, f);
  if (t == 0) return land(c ^ 1, f);
  if (f == 0) return land(c, t);
  if (f == 1) return lor(c ^ 1, t);
  if (t == (f ^ 1)) return lxor(c ^ 1, t);
  if (t == c) return lor(c, f);
  if (t == (c ^ 1)) return land(c ^ 1, f);
  if (f == c) return land(c, t);
  if (f == (c ^ 1)) return lor(c ^ 1, t);
  return lxor(f, land(c, lxor(t, f)));
}

bool Model::eval(Lit l) {
  if (memo.size() < G.nodes.size()) memo.resize(G.nodes.size(), -1);
  if (val.size() < G.vars.size()) val.resize(G.vars.size(), 0);
  std::vector<uint32_t> st{l >> 1};
  while (!st.empty()) {
    uint32_t id = st.back();
    if (memo[id] >= 0) { st.pop_back(); continue; }
    Node& x = G.nodes[id];
    if (x.kind == 0) { memo[id] = 0; st.pop_back(); continue; }
    if (x.kind == 1) { memo[id] = val[x.a]; st.pop_back(); continue; }
    bool ready = true;
    if (x.kind == 2) {
      if (memo[x.a >> 1] < 0) { st.push_back(x.a >> 1); ready = false; }
      if (memo[x.b >> 1] < 0) { st.push_back(x.b >> 1); ready = false; }
      if (ready) memo[id] = (memo[x.a >> 1] ^ (x.a & 1)) & (memo[x.b >> 1] ^ (x.b & 1));
    } else if (x.kind == 3) {
      int v = 0;
      for (uint32_t i = 0; i < x.n; i++) {
        uint32_t o = G.pool[x.a + i];
        if (memo[o] < 0) { st.push_back(o); ready = false; } else v ^= memo[o];
      }
      if (ready) memo[id] = v;
    } else {
      if (memo[x.a] < 0) { st.push_back(x.a); ready = false; }
      if (memo[x.b] < 0) { st.push_back(x.b); ready = false; }
      if (ready) memo[id] = memo[x.a] ^ memo[x.b];
    }
    if (ready) st.pop_back();
  }
  return memo[l >> 1] ^ (l & 1);
}

static double now() { timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec * 1e-6; }

static std::vector<uint32_t> cone(const std::vector<Lit>& roots) {
  std::vector<uint32_t> st, out;
  std::vector<uint8_t> seen(G.nodes.size(), 0);
  for (Lit l : roots) if (!seen[l >> 1]) { seen[l >> 1] = 1; st.push_back(l >> 1); }
  while (!st.empty()) {
    uint32_t id = st.back(); st.pop_back();
    out.push_back(id);
    Node& x = G.nodes[id];
    auto go = [&](uint32_t o) { if (!seen[o]) { seen[o] = 1; st.push_back(o); } };
    if (x.kind == 2) { go(x.a >> 1); go(x.b >> 1); }
    else if (x.kind == 3) for (uint32_t i = 0; i < x.n; i++) go(G.pool[x.a + i]);
    else if (x.kind == 4) { go(x.a); go(x.b); }
  }
  std::sort(out.begin(), out.end());
  return out;
}

// external CDCL (kissat) on the cone of the query
static SatRes external(const std::vector<Lit>& roots, Model* m, double budget) {
  auto ids = cone(roots);
  std::unordered_map<uint32_t, int> num;
  int nv = 0;
  for (uint32_t id : ids) num[id] = ++nv;
  std::vector<std::vector<int>> cl;
  auto L = [&](Lit l) { int v = num[l >> 1]; return (l & 1) ? -v : v; };
  auto X = [&](int o, int a, int b) { cl.push_back({-o, a, b}); cl.push_back({-o, -a, -b}); cl.push_back({o, -a, b}); cl.push_back({o, a, -b}); };
  for (uint32_t id : ids) {
    Node& x = G.nodes[id];
    int o = num[id];
    if (x.kind == 0) cl.push_back({-o});
    else if (x.kind == 2) { cl.push_back({-o, L(x.a)}); cl.push_back({-o, L(x.b)}); cl.push_back({o, -L(x.a), -L(x.b)}); }
    else if (x.kind == 3) {
      std::vector<int> ops;
      for (uint32_t i = 0; i < x.n; i++) ops.push_back(num[G.pool[x.a + i]]);
      while (ops.size() > 2) {
        std::vector<int> nx;
        for (size_t i = 0; i + 1 < ops.size(); i += 2) { int t = ++nv; X(t, ops[i], ops[i + 1]); nx.push_back(t); }
        if (ops.size() & 1) nx.push_back(ops.back());
        ops.swap(nx);
      }
      X(o, ops[0], ops[1]);
    } else if (x.kind == 4) X(o, num[x.a], num[x.b]);
  }
  for (Lit l : roots) cl.push_back({L(l)});
  char fn[256], fo[256];
  static int cnt = 0;
  snprintf(fn, sizeof fn, "%s/q%d_%d.cnf", g_tmpdir.c_str(), getpid(), cnt);
  snprintf(fo, sizeof fo, "%s/q%d_%d.out", g_tmpdir.c_str(), getpid(), cnt++);
  FILE* f = fopen(fn, "w");
  if (!f) return UNKNOWN;
  fprintf(f, "p cnf %d %zu\n", nv, cl.size());
  for (auto& c : cl) { for (int l : c) fprintf(f, "%d ", l); fputs("0\n", f); }
  fclose(f);
  char cmd[800];
  snprintf(cmd, sizeof cmd, "kissat -q --time=%d %s > %s 2>/dev/null", (int)(budget < 1 ? 1 : budget), fn, fo);
  qstats.ext++;
  int rc = system(cmd);
  rc = WIFEXITED(rc) ? WEXITSTATUS(rc) : -1;
  SatRes r = rc == 10 ? SAT : rc == 20 ? UNSAT : UNKNOWN;
  if (r == SAT && m) {
    std::vector<uint8_t> v(nv + 1, 0);
    FILE* g = fopen(fo, "r");
    char tok[64];
    if (g) {
      while (fscanf(g, "%63s", tok) == 1) {
        if (tok[0] == 'v' || tok[0] == 's') continue;
        int l = atoi(tok);
        if (l > 0 && l <= nv) v[l] = 1;
      }
      fclose(g);
    }
    for (uint32_t id : ids) if (G.nodes[id].kind == 1) m->val[G.nodes[id].a] = v[num[id]];
  }
  unlink(fn); unlink(fo);
  return r;
}

// in-process CDCL (picosat): either one instance per query, or one that grows with the nodes it is asked about
struct Cnf {
  PicoSAT* p;
  bool cut = false; // cut points (see cutPoint) are free variables, except for those in
  std::set<uint32_t> opened;
  std::unordered_map<uint32_t, int> num;
  int nv = 0;
  double deadline = 0;
  uint32_t calls = 0;
  static int stopCb(void* v) { Cnf* c = (Cnf*)v; return now() > c->deadline; }
  Cnf() { p = picosat_init(); picosat_set_interrupt(p, this, stopCb); }
  ~Cnf() { picosat_reset(p); }
  void c1(int a) { picosat_add(p, a); picosat_add(p, 0); }
  void c2(int a, int b) { picosat_add(p, a); picosat_add(p, b); picosat_add(p, 0); }
  void c3(int a, int b, int c) { picosat_add(p, a); picosat_add(p, b); picosat_add(p, c); picosat_add(p, 0); }
  void xr(int o, int a, int b) { c3(-o, a, b); c3(-o, -a, -b); c3(o, -a, b); c3(o, a, -b); }
  int lit(Lit l) { int v = num[l >> 1]; return (l & 1) ? -v : v; }
  void define(Lit root) {
    std::vector<uint32_t> st{root >> 1};
    while (!st.empty()) {
      uint32_t id = st.back();
      if (num.count(id)) { st.pop_back(); continue; }
      const Node& x = G.nodes[id];
      bool ready = true;
      if (cut && x.kind == 4 && !x.b && !opened.count(id)) { st.pop_back(); num[id] = ++nv; continue; }
      auto need = [&](uint32_t o) { if (!num.count(o)) { st.push_back(o); ready = false; } };
      if (x.kind == 2) { need(x.a >> 1); need(x.b >> 1); }
      else if (x.kind == 3) for (uint32_t i = 0; i < x.n; i++) need(G.pool[x.a + i]);
      else if (x.kind == 4) { need(x.a); need(x.b); }
      if (!ready) continue;
      st.pop_back();
      int o = num[id] = ++nv;
      if (x.kind == 0) c1(-o);
      else if (x.kind == 2) { int a = lit(x.a), b = lit(x.b); c2(-o, a); c2(-o, b); c3(o, -a, -b); }
      else if (x.kind == 3) {
        std::vector<int> ops;
        for (uint32_t i = 0; i < x.n; i++) ops.push_back(num[G.pool[x.a + i]]);
        while (ops.size() > 2) {
          std::vector<int> nx;
          for (size_t i = 0; i + 1 < ops.size(); i += 2) { int t = ++nv; xr(t, ops[i], ops[i + 1]); nx.push_back(t); }
          if (ops.size() & 1) nx.push_back(ops.back());
          ops.swap(nx);
        }
        xr(o, ops[0], ops[1]);
      } else if (x.kind == 4) xr(o, num[x.a], num[x.b]);
      else picosat_adjust(p, o);
    }
  }
  SatRes solve(const std::vector<Lit>& roots, double budget, Model* m, uint64_t propLimit = 0) {
    for (Lit l : roots) define(l);
    for (Lit l : roots) picosat_assume(p, lit(l));
    deadline = now() + budget;
    picosat_set_propagation_limit(p, propLimit ? propLimit : 1000000000000000ull);
    int r = picosat_sat(p, -1);
    if (r == PICOSAT_UNSATISFIABLE) return UNSAT;
    if (r != PICOSAT_SATISFIABLE) return UNKNOWN;
    if (m) {
      for (auto& k : num) if (G.nodes[k.first].kind == 1) m->val[G.nodes[k.first].a] = picosat_deref(p, k.second) > 0;
    }
    return SAT;
  }
};

// ---------------------------------------------------------------- cut points
// A cut point is a node that equals another one (a sum with zero, kept as it is), so that what is computed from it is
// not mixed with how it was computed. canonLit finds the cut point a literal provably equals, the proof treating the
// cut points below as free variables (which is sound: equal for all values, so equal for those they have).
static std::unordered_map<uint32_t, Lit> cutOf;           // node -> cut point it equals
static std::unordered_map<uint64_t, std::vector<Lit>> cutCand; // signature (normalised) -> cut points
static std::vector<std::array<uint64_t, 2>> cutSig;
static std::unordered_map<uint32_t, char> cutFailed;
static const std::array<uint64_t, 2>& sigOf(uint32_t id) {
  for (uint32_t i = cutSig.size(); i < G.nodes.size(); i++) {
    const Node& x = G.nodes[i];
    std::array<uint64_t, 2> v{0, 0};
    for (int w = 0; w < 2; w++) {
      auto lv = [&](Lit l) { uint64_t s = cutSig[l >> 1][w]; return (l & 1) ? ~s : s; };
      if (x.kind == 1) v[w] = rnd64();
      else if (x.kind == 2) v[w] = lv(x.a) & lv(x.b);
      else if (x.kind == 3) for (uint32_t k = 0; k < x.n; k++) v[w] ^= cutSig[G.pool[x.a + k]][w];
      else if (x.kind == 4) v[w] = cutSig[x.a][w] ^ cutSig[x.b][w];
    }
    cutSig.push_back(v);
  }
  return cutSig[id];
}
static uint64_t normSig(Lit l, Lit& norm) {
  auto& v = sigOf(l >> 1);
  norm = (v[0] & 1) ^ (l & 1);
  return (v[0] & 1) ? hmix(~v[0], ~v[1]) : hmix(v[0], v[1]);
}
Lit canonLit(Lit l) {
  uint32_t id = l >> 1;
  if (!id || G.nodes[id].kind == 1 || (G.nodes[id].kind == 4 && !G.nodes[id].b)) return l;
  auto it = cutOf.find(id);
  if (it != cutOf.end()) return it->second ^ (l & 1);
  if (cutFailed.count(id)) return l;
  if (G.nodes[id].kind == 3) { // a sum in which some terms are cut points that are sums themselves
    Lit sum = 0;
    bool any = false;
    for (uint32_t k = 0; k < G.nodes[id].n; k++) {
      uint32_t o = G.pool[G.nodes[id].a + k];
      const Node& x = G.nodes[o];
      bool ex = x.kind == 4 && !x.b && G.nodes[x.a].kind == 3;
      for (uint32_t q = 0; ex && q < G.nodes[x.a].n; q++) { uint8_t t = G.nodes[G.pool[G.nodes[x.a].a + q]].kind; ex = t == 1 || t == 4; }
      any |= ex;
      sum = G.lxor(sum, (ex ? x.a : o) * 2);
    }
    if (any) {
      auto s = cutOf.find(sum >> 1);
      if (s != cutOf.end()) { cutOf[id] = s->second ^ (sum & 1); return cutOf[id] ^ (l & 1); }
    }
  }
  Lit nl;
  uint64_t h = normSig(id * 2, nl);
  auto c = cutCand.find(h);
  if (c != cutCand.end()) {
    int tries = 0;
    for (Lit o : c->second) {
      if (++tries > 4) break;
      Lit cand = o ^ nl;
      const Node& cn = G.nodes[cand >> 1];
      Lit d = G.lxor(cn.kind == 4 && !cn.b ? cn.a * 2 ^ (cand & 1) : cand, id * 2); // how it is computed
      qstats.queries++;
      double t0 = now();
      SatRes r = d == 0 ? UNSAT : SAT;
      std::set<uint32_t> open;
      for (int level = 0; level < 2 && r == SAT; level++) { // then with the nearest cut points opened
        Cnf solver;
        solver.cut = true;
        solver.opened = open;
        if (level) solver.opened.erase(cand >> 1);
        r = solver.solve({level ? G.lxor(cand, id * 2) : d}, 5.0, nullptr, 2000000);
        if (solver.nv > 600) break;
        for (auto& k : solver.num) if (G.nodes[k.first].kind == 4 && !G.nodes[k.first].b) open.insert(k.first);
      }
      if (getenv("VF_DEBUG")) fprintf(stderr, "cut: [%d] %d vars, result %d, %.3f s\n", getpid(), (int)open.size(), (int)r, now() - t0);
      qstats.seconds += now() - t0;
      if (r == UNSAT) { qstats.unsat++; qstats.swept++; cutOf[id] = cand; return cand ^ (l & 1); }
      if (r == SAT) qstats.sat++; else qstats.unknown++;
    }
  }
  cutFailed[id] = 1;
  return l;
}
Lit cutPoint(Lit l) {
  l = canonLit(l);
  uint32_t id = l >> 1;
  if (!id) return l;
  bool leaf = G.nodes[id].kind == 1 || (G.nodes[id].kind == 4 && !G.nodes[id].b);
  static std::unordered_map<uint32_t, char> known;
  if (!leaf) {
    uint32_t n = G.nodes.size();
    G.nodes.push_back(Node{4, 0, 2, id, 0, G.nodes[id].sig});
    cutOf[id] = n * 2;
    l = n * 2 ^ (l & 1);
    id = n;
  }
  if (!known.count(id)) {
    known[id] = 1;
    Lit nl;
    uint64_t h = normSig(id * 2, nl);
    cutCand[h].push_back((id * 2) ^ nl);
  }
  return l;
}
// ---------------------------------------------------------------- SAT sweeping: prove internal equivalences bottom-up
static std::vector<Lit> repr; // node -> literal it was proved equal to (original graph)
static Lit findRepr(Lit l) {
  while ((l >> 1) < repr.size() && repr[l >> 1] != (l & ~1u)) l = repr[l >> 1] ^ (l & 1);
  return l;
}
static std::unordered_map<uint32_t, Lit> proved; // node -> simpler literal it equals
// Canonical forms of long xor sums: the graph keeps sums of up to XLIM terms canonical, this keeps longer ones canonical
// while a cone is rebuilt.
struct Flat {
  std::unordered_map<uint32_t, std::vector<uint32_t>> memo;
  struct H { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = v.size(); for (uint32_t x : v) h = hmix(h, x); return h; } };
  std::unordered_map<std::vector<uint32_t>, Lit, H> canon;
  const std::vector<uint32_t>& get(uint32_t root) {
    std::vector<uint32_t> st{root};
    while (!st.empty()) {
      uint32_t id = st.back();
      if (memo.count(id)) { st.pop_back(); continue; }
      Node x = G.nodes[id];
      if (x.kind == 3) {
        std::vector<uint32_t> v(G.pool.begin() + x.a, G.pool.begin() + x.a + x.n), w;
        bool ready = true;
        for (uint32_t o : v) if (G.nodes[o].kind == 4 && !memo.count(o)) { st.push_back(o); ready = false; }
        if (!ready) continue;
        std::vector<uint32_t> acc, longs;
        for (uint32_t o : v) (G.nodes[o].kind == 4 ? longs : acc).push_back(o);
        for (uint32_t o : longs) {
          auto& p = memo[o];
          w.clear();
          std::set_symmetric_difference(acc.begin(), acc.end(), p.begin(), p.end(), std::back_inserter(w));
          acc.swap(w);
        }
        if (acc.size() > 3000) acc.assign(1, id);
        memo[id] = std::move(acc);
      } else if (x.kind == 4) {
        bool ready = true;
        for (uint32_t o : {x.a, x.b}) if (!memo.count(o)) { st.push_back(o); ready = false; }
        if (!ready) continue;
        std::vector<uint32_t> v;
        auto &p = memo[x.a], &q = memo[x.b];
        std::set_symmetric_difference(p.begin(), p.end(), q.begin(), q.end(), std::back_inserter(v));
        if (v.size() > 3000) v.assign(1, id);
        memo[id] = std::move(v);
      } else memo[id] = std::vector<uint32_t>(1, id);
      st.pop_back();
    }
    return memo[root];
  }
  Lit operator()(Lit r) {
    if (G.nodes[r >> 1].kind < 3) return r;
    auto& v = get(r >> 1);
    if (v.empty()) return r & 1;
    if (v.size() == 1 && v[0] != (r >> 1)) return v[0] * 2 ^ (r & 1);
    if (v.size() <= XLIM) {
      Lit k = r & 1;
      std::vector<uint32_t> w = v;
      for (uint32_t x : w) k = G.lxor(k, x * 2);
      return k;
    }
    auto it = canon.emplace(v, r & ~1u).first;
    return it->second ^ (r & 1);
  }
};
// rebuilds the cones of the roots with canonical long sums
static bool relinear(std::vector<Lit>& roots) {
  auto ids = cone(roots);
  bool any = false;
  for (uint32_t id : ids) any |= G.nodes[id].kind == 4;
  if (!any) return false;
  Flat flat;
  std::unordered_map<uint32_t, Lit> nu;
  nu[0] = 0;
  for (uint32_t id : ids) {
    if (!id) continue;
    Node x = G.nodes[id];
    auto m = [&](Lit l) { return nu[l >> 1] ^ (l & 1); };
    Lit r;
    if (x.kind == 1) r = id * 2;
    else if (x.kind == 2) r = G.land(m(x.a), m(x.b));
    else if (x.kind == 3) { r = 0; for (uint32_t i = 0; i < x.n; i++) r = G.lxor(r, nu[G.pool[x.a + i]]); }
    else r = G.lxor(nu[x.a], nu[x.b]);
    nu[id] = flat(r);
  }
  for (Lit& l : roots) l = nu[l >> 1] ^ (l & 1);
  if (getenv("VF_DEBUG")) {
    auto k = cone(roots);
    int n[5] = {};
    for (uint32_t id : k) n[G.nodes[id].kind]++;
    int n0[5] = {};
    for (uint32_t id : ids) n0[G.nodes[id].kind]++;
    fprintf(stderr, "relinear: vars %d->%d and %d->%d xor %d->%d long %d->%d canon %zu\n", n0[1], n[1], n0[2], n[2], n0[3], n[3], n0[4], n[4], flat.canon.size());
  }
  return true;
}
static SatRes sweep(const std::vector<Lit>& roots, double deadline) {
  // rebuild the cone bottom-up; nodes with equal signatures are checked for equivalence with short queries
  auto ids = cone(roots);
  if (ids.size() < 40) return UNKNOWN;
  std::unordered_map<uint32_t, Lit> nu;
  std::unordered_map<uint64_t, std::vector<Lit>> cls; // extended signature -> literals
  // several extra random words per node for a stronger signature
  const int W = 4;
  std::unordered_map<uint32_t, std::vector<uint64_t>> ext;
  auto esig = [&](uint32_t id) -> std::vector<uint64_t>& { return ext[id]; };
  std::function<void(uint32_t)> ensure = [&](uint32_t root) {
    std::vector<uint32_t> st{root};
    while (!st.empty()) {
      uint32_t id = st.back();
      if (ext.count(id)) { st.pop_back(); continue; }
      Node& x = G.nodes[id];
      bool ready = true;
      auto need = [&](uint32_t o) { if (!ext.count(o)) { st.push_back(o); ready = false; } };
      if (x.kind == 2) { need(x.a >> 1); need(x.b >> 1); }
      else if (x.kind == 3) for (uint32_t i = 0; i < x.n; i++) need(G.pool[x.a + i]);
      else if (x.kind == 4) { need(x.a); need(x.b); }
      if (!ready) continue;
      std::vector<uint64_t> v(W, 0);
      auto lv = [&](Lit l, int w) { uint64_t s = ext[l >> 1][w]; return (l & 1) ? ~s : s; };
      for (int w = 0; w < W; w++) {
        if (x.kind == 1) v[w] = rnd64();
        else if (x.kind == 2) v[w] = lv(x.a, w) & lv(x.b, w);
        else if (x.kind == 3) for (uint32_t i = 0; i < x.n; i++) v[w] ^= ext[G.pool[x.a + i]][w];
        else if (x.kind == 4) v[w] = ext[x.a][w] ^ ext[x.b][w];
      }
      ext[id] = v;
      st.pop_back();
    }
  };
  nu[0] = 0;
  uint64_t tried = 0;
  Cnf inc;
  Flat flat;
  for (uint32_t id : ids) {
    if (now() > deadline) return UNKNOWN;
    if (id == 0) continue;
    Node x = G.nodes[id];
    auto m = [&](Lit l) { return nu[l >> 1] ^ (l & 1); };
    Lit r;
    auto kn = proved.find(id);
    bool known = kn != proved.end();
    if (known) r = kn->second;
    else if (x.kind == 1) r = id * 2;
    else if (x.kind == 2) r = G.land(m(x.a), m(x.b));
    else if (x.kind == 3) { r = 0; for (uint32_t i = 0; i < x.n; i++) r = G.lxor(r, nu[G.pool[x.a + i]]); }
    else r = G.lxor(nu[x.a], nu[x.b]);
    r = flat(r);
    if ((r >> 1) != 0) {
      ensure(r >> 1);
      auto& v = esig(r >> 1);
      Lit norm = v[0] & 1;
      uint64_t h = 0;
      for (int w = 0; w < W; w++) h = hmix(h, norm ? ~v[w] : v[w]);
      Lit c = r ^ norm;
      auto& bucket = cls[h];
      bool merged = false, present = false;
      for (Lit o : bucket) {
        if (o == c) { present = true; break; }
        if (!known && tried < 200000) {
          tried++;
          Lit d = flat(G.lxor(o, c));
          if (d == 0) { r = o ^ norm; merged = true; break; }
          SatRes s = inc.solve({d}, 1.0, nullptr, 200000);
          if (s == UNSAT) { r = o ^ norm; merged = true; qstats.swept++; break; }
        }
      }
      if (!merged && !present) bucket.push_back(c);
    }
    nu[id] = r;
    if (!known) proved[id] = r;
  }
  std::vector<Lit> nr;
  for (Lit l : roots) {
    Lit x = nu[l >> 1] ^ (l & 1);
    if (x == 0) return UNSAT;
    nr.push_back(x);
  }
  return inc.solve(nr, std::max(1.0, std::min(20.0, deadline - now())), nullptr);
}

static std::unordered_map<uint32_t, std::vector<uint32_t>> supports;
static const std::vector<uint32_t>& support(Lit l) {
  auto it = supports.find(l >> 1);
  if (it != supports.end()) return it->second;
  if (supports.size() > 4000) supports.clear();
  std::vector<uint32_t> v;
  for (uint32_t id : cone({l})) if (G.nodes[id].kind == 1) v.push_back(G.nodes[id].a);
  return supports[l >> 1] = v;
}
// Patterns are redrawn so that they satisfy the path condition: the variables it mentions take the values of known models,
// the others random ones.
void PathSolver::reseed() {
  if (models.empty() || G.nodes.size() > 600000) return;
  std::vector<uint8_t> fixed(G.vars.size(), 0);
  for (Lit x : pc) for (uint32_t v : support(x)) fixed[v] = 1;
  for (Model* m : models) if (m->val.size() < G.vars.size()) m->val.resize(G.vars.size(), 0);
  size_t nm = models.size();
  for (size_t i = 0; i < G.vars.size(); i++) {
    uint64_t s;
    if (fixed[i]) { s = 0; for (int k = 0; k < 64; k++) s |= (uint64_t)(models[k % nm]->val[i] & 1) << k; }
    else {
      s = rnd64();
      for (size_t k = 0; k < nm && k < 64; k++) s = (s & ~(1ull << k)) | (uint64_t)(models[k]->val[i] & 1) << k;
    }
    G.nodes[G.vars[i]].sig = s;
  }
  for (Node& x : G.nodes) {
    if (x.kind == 2) x.sig = G.sig(x.a) & G.sig(x.b);
    else if (x.kind == 3) { uint64_t s = 0; for (uint32_t i = 0; i < x.n; i++) s ^= G.nodes[G.pool[x.a + i]].sig; x.sig = s; }
    else if (x.kind == 4) x.sig = G.nodes[x.a].sig ^ G.nodes[x.b].sig;
  }
  resign();
}
void PathSolver::resign() {
  pcsig = ~0ull;
  for (Lit x : pc) pcsig &= G.sig(x);
}
void PathSolver::add(Lit l) {
  if (l == 1) return;
  if (l == 0) { contradictory = true; return; }
  for (Lit x : pc) if (x == l) return;
  pc.push_back(l);
  pcsig &= G.sig(l);
  std::vector<Model*> keep;
  for (Model* m : models) if (m->eval(l)) keep.push_back(m); else if (!keepModels) delete m;
  models.swap(keep);
}

SatRes PathSolver::query(Lit l, Model** out, double budget) {
  if (l == 0) return UNSAT;
  if (uint64_t s = pcsig & G.sig(l)) {
    qstats.bysig++;
    if (out) {
      int k = __builtin_ctzll(s);
      Model* m = new Model;
      m->val.resize(G.vars.size());
      for (size_t i = 0; i < G.vars.size(); i++) m->val[i] = (G.nodes[G.vars[i]].sig >> k) & 1;
      *out = m;
    }
    return SAT;
  }
  for (Model* m : models)
    if (m->eval(l)) {
      qstats.bymodel++;
      if (out) { *out = new Model(*m); }
      return SAT;
    }
  double t0 = now();
  qstats.queries++;
  // Slice the path condition: only constraints connected to l through shared variables can matter, because the path
  // condition as a whole is satisfiable; a model of the slice is completed with a known model of the rest.
  std::vector<Lit> roots{l};
  Model* m = new Model;
  m->val.assign(G.vars.size(), 0);
  bool base = true;
  if (pcsig) {
    int k = __builtin_ctzll(pcsig);
    for (size_t i = 0; i < G.vars.size(); i++) m->val[i] = (G.nodes[G.vars[i]].sig >> k) & 1;
  } else if (!models.empty()) { m->val = models[0]->val; m->val.resize(G.vars.size(), 0); }
  else base = false;
  if (base && pc.size()) {
    std::vector<uint8_t> in(G.vars.size(), 0);
    for (uint32_t v : support(l)) in[v] = 1;
    std::vector<uint8_t> used(pc.size(), 0);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < pc.size(); i++) {
        if (used[i]) continue;
        auto& sv = support(pc[i]);
        bool hit = false;
        for (uint32_t v : sv) if (in[v]) { hit = true; break; }
        if (!hit) continue;
        used[i] = 1; ch = true;
        roots.push_back(pc[i]);
        for (uint32_t v : sv) in[v] = 1;
      }
    }
  } else roots.insert(roots.end(), pc.begin(), pc.end());
  double first = std::min(budget, 0.4);
  SatRes r = UNKNOWN;
  if (relinear(roots)) {
    std::vector<Lit> k;
    for (Lit x : roots) if (x == 0) r = UNSAT; else if (x != 1) k.push_back(x);
    roots = k;
  }
  if (r == UNKNOWN) { Cnf c; r = c.solve(roots, first, m); }
  if (r == UNKNOWN && budget > first) {
    r = external(roots, m, std::min(budget - first, std::max(3.0, budget * 0.3)));
    if (r == UNKNOWN && now() - t0 < budget) {
      r = sweep(roots, t0 + budget * 0.7);
      if (r == SAT) r = UNKNOWN; // need a model: fall through to the external solver
      if (r == UNKNOWN && now() - t0 < budget) r = external(roots, m, budget - (now() - t0));
    }
  }
  roots.insert(roots.end(), pc.begin(), pc.end());
  qstats.seconds += now() - t0;
  if (r == SAT) {
    qstats.sat++;
    // double-check the model against the graph
    for (Lit x : roots) if (!m->eval(x)) { fprintf(stderr, "internal: solver model does not satisfy the query\n"); r = UNKNOWN; break; }
  } else if (r == UNSAT) qstats.unsat++;
  else qstats.unknown++;
  if (r == SAT) {
    Model* k = new Model(*m);
    bool ok = true;
    for (Lit x : pc) ok &= k->eval(x);
    if (ok) {
      if (models.size() >= 24) { if (!keepModels) delete models[0]; models.erase(models.begin()); }
      models.push_back(k);
      reseed();
    } else delete k;
    if (out) *out = m; else delete m;
  } else delete m;
  return r;
}
