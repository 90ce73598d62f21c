// Xor/and graph with hash-consing, and the solver front end on top of it.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>

typedef uint32_t Lit; // node*2 + complement; node 0 is the constant: 0 = false, 1 = true

struct Node {
  uint8_t kind; // 0 const, 1 var, 2 and, 3 xor (n-ary, sorted), 4 xor pair (opaque, over the size limit)
  uint8_t uninit; // var that stands for uninitialised memory
  uint16_t n;
  uint32_t a, b; // and: literals; xor: offset into pool; var: index
  uint64_t sig;
};

struct Graph {
  std::vector<Node> nodes;
  std::vector<uint32_t> pool; // xor operands (node ids)
  std::vector<uint32_t> vars; // var index -> node
  Graph();
  Lit newVar(bool uninit = false);
  Lit land(Lit a, Lit b);
  Lit lxor(Lit a, Lit b);
  Lit lor(Lit a, Lit b) { return land(a ^ 1, b ^ 1) ^ 1; }
  Lit mux(Lit c, Lit t, Lit f);
  uint64_t sig(Lit l) const { uint64_t s = nodes[l >> 1].sig; return (l & 1) ? ~s : s; }
  void addPattern(); // refresh signatures? (unused)

 private:
  int noOverlap = 0;
  std::vector<uint32_t> htab; // open addressing, node ids
  uint32_t hcount = 0;
  void rehash();
  uint32_t lookup(uint8_t kind, uint64_t h, uint32_t a, uint32_t b, const uint32_t* ops, uint32_t n);
  std::vector<uint32_t> tmp;
};
extern Graph G;
Lit cutPoint(Lit l);
Lit canonLit(Lit l);

enum SatRes { SAT, UNSAT, UNKNOWN };

struct Stats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, bysig = 0, bymodel = 0, ext = 0, swept = 0;
  double seconds = 0;
};
extern Stats qstats;

// A model assigns every variable; evaluation is memoised per model.
struct Model {
  std::vector<uint8_t> val; // by var index
  std::vector<int8_t> memo; // by node, -1 unknown
  bool eval(Lit l);
};

// path condition handling + queries
struct PathSolver {
  std::vector<Lit> pc; // asserted literals
  uint64_t pcsig = ~0ull;
  std::vector<Model*> models; // models satisfying pc
  bool contradictory = false;
  int keepModels = 0; // models are shared with a suspended state: do not delete them
  void add(Lit l);
  void reseed();
  void resign();
  // is pc & l satisfiable?  On SAT, *out (if given) gets a model.
  SatRes query(Lit l, Model** out, double budget);
};
extern PathSolver PS;
extern double g_queryBudget;
extern std::string g_tmpdir;
