// vsym: symbolic executor. See DESIGN.md.
#include "bits.h"
#include "fp.h"
#include "ir.h"
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <memory>
#include <set>
#include <unordered_map>
#include <wmmintrin.h>

// ---------------------------------------------------------------- shared statistics
struct Shared {
  std::atomic<int> running;
  std::atomic<uint64_t> paths, killed, forks, instrs, checks, checksConst, checksUnsat, checksViol;
  std::atomic<uint64_t> queries, qsat, qunsat, qunknown, qsig, qmodel, qext, qswept, solverUs, maxNodes;
  std::atomic<uint64_t> violations, merges, errors, unknownChecks, uninitBranches, symVars, stateCount, assumesKilled, schedPoints;
  std::atomic<int> timeout, stop, violSeq;
  std::atomic<uint8_t> reach[64];
  std::atomic<uint32_t> nreach;
  char reachName[64][96];
  std::atomic<uint8_t> cov[65536];
};
static Shared* SH;
static int maxProcs = 8;
static double deadline = 0;
static double T0;
static std::string outDir;
static bool verbose = false;
static uint64_t maxViol = 1;
static int maxPreempt = 0; // schedule exploration (set by the harness)
static uint64_t myInstrs = 0;
static uint64_t instrLimit = 0;
static double now() { timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec * 1e-6; }

// ---------------------------------------------------------------- memory
std::vector<Obj> objs(1);
static uint64_t liveHeap = 0;
static const uint64_t BIAS = 0x1000;

uint64_t newObj(uint64_t size, uint8_t kind, bool uninit) {
  Obj o;
  o.size = size;
  o.kind = kind;
  o.alive = true;
  o.d = (uint8_t*)calloc(size ? size : 1, 1);
  if (!o.d) { fprintf(stderr, "engine: allocation of %llu bytes failed\n", (unsigned long long)size); exit(3); }
  if (uninit) { o.flag = (uint8_t*)malloc(size ? size : 1); memset(o.flag, 2, size); }
  objs.push_back(o);
  return ((uint64_t)(objs.size() - 1) << 32) + BIAS;
}

struct Chunk { char* p; size_t cap; };
struct Arena {
  std::vector<Chunk> ch;
  size_t ci = 0, off = 0;
  void* alloc(size_t n) {
    n = (n + 15) & ~15ull;
    for (;;) {
      if (ci < ch.size()) {
        if (off + n <= ch[ci].cap) { void* r = ch[ci].p + off; off += n; return r; }
        ci++; off = 0;
        continue;
      }
      size_t cap = std::max<size_t>(n, 1 << 20);
      ch.push_back({(char*)malloc(cap), cap});
      off = 0;
    }
  }
};
struct Frame {
  Fn* fn;
  Val* regs;
  int32_t blk, ip;
  size_t mci, moff;
  Inst* call; // call instruction in the caller
  std::vector<uint32_t>* allocas;
};
enum TStat { T_RUN, T_BLOCKED, T_DONE };
struct Thread {
  int id;
  std::vector<Frame> st;
  Arena arena;
  TStat stat = T_RUN;
  int waitKind = 0; // 1 mutex 2 cond 3 futex 4 join
  uint64_t waitA = 0, waitB = 0;
  int phase = 0;
  std::vector<uint64_t> caught;
  std::map<int, uint64_t> tls;
};
static std::vector<Thread*> threads;
static Thread* T;
void* arenaAlloc(uint64_t n) {
  static Arena global;
  return T ? T->arena.alloc(n) : global.alloc(n);
}

// ---------------------------------------------------------------- symbols
struct SymRec { std::string name; uint32_t idx; std::vector<Lit> bits; };
static std::vector<SymRec> syms;
static std::map<std::string, uint32_t> symCount;

static std::map<std::string, std::vector<uint64_t>> replayIn;
static bool replaying = false;
static bool replayed(const std::string& name, uint32_t idx, uint64_t& v) {
  if (!replaying) return false;
  auto it = replayIn.find(name);
  v = it != replayIn.end() && idx < it->second.size() ? it->second[idx] : 0;
  return true;
}

// ---------------------------------------------------------------- speculative execution of branch sides (see mergeBranch)
struct SpecAbort {};
struct ObjCopy { std::vector<uint8_t> d, flag; std::vector<Lit> sh; bool hasFlag = false, hasSh = false; };
struct Side {
  uint32_t id;
  uint64_t base;           // objects from here on were created in this side
  size_t depth;            // call depth of the branching frame
  Thread* thread;
  int32_t join;
  std::map<uint32_t, std::shared_ptr<ObjCopy>> saved; // pre-state of objects it wrote
};
static std::vector<Side*> specs;
static uint32_t sideSeq = 0;
static bool specArrived = false;
static uint64_t specInstrs = 0;
static bool mergeOn = true;
static inline void specStop() { if (!specs.empty()) throw SpecAbort(); }
static void specSave(Obj& o, uint64_t id);

static std::string backtrace(int lim = 24) {
  std::string s;
  char b[512];
  if (!T) return s;
  for (int i = (int)T->st.size() - 1, n = 0; i >= 0 && n < lim; i--, n++) {
    Frame& f = T->st[i];
    Inst* in = nullptr;
    auto& is = f.fn->blocks[f.blk].insts;
    if (f.ip < (int)is.size()) in = &is[f.ip];
    snprintf(b, sizeof b, "  #%d %s (%s:%u)\n", n, f.fn->name.substr(0, 200).c_str(), in && in->file ? in->file : "?", in ? in->line : 0);
    s += b;
  }
  return s;
}

static void finishProcess();

static void flushStats() {
  static Stats last;
  SH->queries += qstats.queries - last.queries; SH->qsat += qstats.sat - last.sat; SH->qunsat += qstats.unsat - last.unsat;
  SH->qunknown += qstats.unknown - last.unknown; SH->qsig += qstats.bysig - last.bysig; SH->qmodel += qstats.bymodel - last.bymodel;
  SH->qext += qstats.ext - last.ext; SH->qswept += qstats.swept - last.swept; SH->solverUs += (uint64_t)((qstats.seconds - last.seconds) * 1e6);
  last = qstats;
  SH->instrs += myInstrs; myInstrs = 0;
  uint64_t n = G.nodes.size(), o = SH->maxNodes;
  while (n > o && !SH->maxNodes.compare_exchange_weak(o, n)) {}
}

static void writeInputs(FILE* f, Model* m) {
  for (auto& s : syms) {
    std::string hex;
    uint64_t v = 0;
    for (size_t i = 0; i < s.bits.size(); i++) if (m ? m->eval(s.bits[i]) : 0) v |= 1ull << i;
    fprintf(f, "INPUT %s %u %zu %llx\n", s.name.c_str(), s.idx, s.bits.size(), (unsigned long long)v);
  }
}
static void reportViolation(const std::string& msg, Lit extra) {
  Model* m = nullptr;
  SatRes r = PS.query(extra, &m, g_queryBudget);
  if (r == UNSAT) return;
  if (r == UNKNOWN) { SH->unknownChecks++; return; }
  uint64_t k = SH->violations++;
  if (k < 64) {
    int seq = SH->violSeq++;
    FILE* f = fopen((outDir + "/viol_" + std::to_string(seq) + ".txt").c_str(), "w");
    if (f) {
      fprintf(f, "MSG %s\n", msg.c_str());
      writeInputs(f, m);
      fprintf(f, "STACK\n%s", backtrace().c_str());
      fclose(f);
    }
  }
  delete m;
  if (SH->violations >= maxViol) SH->stop = 1;
}
static uint64_t maxWitness = 2;
static void endPath() {
  specStop();
  uint64_t k = SH->paths++;
  if (k < maxWitness && syms.size()) {
    Model* m = nullptr;
    if (PS.query(1, &m, g_queryBudget) == SAT && m) {
      FILE* f = fopen((outDir + "/path_" + std::to_string(k) + ".txt").c_str(), "w");
      if (f) { writeInputs(f, m); fclose(f); }
      delete m;
    }
  }
  finishProcess();
}
static void engineError(const char* fmt, ...) {
  specStop();
  char b[2048];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  uint64_t k = SH->errors++;
  if (k < 5) fprintf(stderr, "engine error: %s\n%s", b, backtrace().c_str());
  finishProcess();
}
// a fault of the program itself (memory error, uncaught exception, deadlock, abort): violation on this path
static void programFault(const char* fmt, ...) {
  specStop();
  char b[2048];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  reportViolation(std::string("fault: ") + b, 1);
  maxWitness = 0;
  endPath();
}

// ---------------------------------------------------------------- processes
static int pendingKids = 0;
static bool holdsSlot = true;
static void reap(bool block) {
  int st;
  while (pendingKids > 0) {
    pid_t p = waitpid(-1, &st, block ? 0 : WNOHANG);
    if (p <= 0) { if (p < 0) pendingKids = 0; break; }
    pendingKids--;
    if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0)) { SH->errors++; fprintf(stderr, "engine error: path process ended abnormally (status %x)\n", st); }
  }
}
static bool isRoot = true;
static void finishMain();
static void finishProcess() {
  flushStats();
  if (holdsSlot) { SH->running--; holdsSlot = false; }
  reap(true);
  if (isRoot) finishMain();
  fflush(stdout);
  _exit(0);
}
static void checkLimits() {
  if (SH->stop) finishProcess();
  if (deadline && now() > deadline) { SH->timeout = 1; SH->stop = 1; finishProcess(); }
}
// returns true in the child
static bool forkPath() {
  checkLimits();
  SH->forks++;
  flushStats();
  fflush(stderr);
  reap(false);
  int r = SH->running.load();
  bool par = false;
  while (r < maxProcs) if (SH->running.compare_exchange_weak(r, r + 1)) { par = true; break; }
  pid_t p = fork();
  if (p < 0) { SH->errors++; fprintf(stderr, "engine error: fork failed\n"); if (par) SH->running--; finishProcess(); }
  if (p == 0) {
    isRoot = false; pendingKids = 0; holdsSlot = par || holdsSlot;
    // sequential child: runs in the parent's slot, which the parent keeps
    if (!par) holdsSlot = false;
    return true;
  }
  if (par) pendingKids++;
  else {
    int st;
    while (waitpid(p, &st, 0) < 0) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { SH->errors++; fprintf(stderr, "engine error: path process ended abnormally (status %x)\n", st); }
  }
  return false;
}

static bool decide(Lit l) {
  if (l < 2) return l;
  for (Lit x : PS.pc) { if (x == l) return true; if (x == (l ^ 1)) return false; }
  SatRes a = PS.query(l, nullptr, g_queryBudget);
  if (a == UNSAT) { PS.add(l ^ 1); return false; }
  SatRes b = PS.query(l ^ 1, nullptr, g_queryBudget);
  if (b == UNSAT) { PS.add(l); return true; }
  specStop();
  if (verbose) fprintf(stderr, "fork %s", backtrace(6).c_str());
  if (forkPath()) { PS.add(l ^ 1); return false; }
  PS.add(l);
  return true;
}

// ---------------------------------------------------------------- values
static inline uint64_t maskw(uint64_t v, uint32_t w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static inline int64_t sext(uint64_t v, uint32_t w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static const Lit* lits(const Val& v, uint32_t w) {
  if (v.p) return (Lit*)v.p;
  Lit* l = lalloc(w);
  for (uint32_t i = 0; i < w; i++) l[i] = i < 64 ? (v.c >> i) & 1 : 0;
  return l;
}
static Val mk(Lit* l, uint32_t w) {
  if (w > 64) return Val{0, l};
  uint64_t c = 0;
  for (uint32_t i = 0; i < w; i++) {
    if (l[i] > 1) return Val{0, l};
    c |= (uint64_t)l[i] << i;
  }
  return Val{c, nullptr};
}
static inline Val cv(uint64_t c) { return Val{c, nullptr}; }
static Val cvw(uint64_t c, uint32_t w) { // constant of any width
  if (w <= 64) return cv(maskw(c, w));
  Lit* l = lalloc(w);
  for (uint32_t i = 0; i < w; i++) l[i] = i < 64 ? (c >> i) & 1 : 0;
  return Val{0, l};
}
static uint64_t concretize(const Val& v, uint32_t w, const char* why) {
  if (!v.p) return v.c;
  const Lit* l = (Lit*)v.p;
  bool allc = true;
  for (uint32_t i = 0; i < w; i++) if (l[i] > 1) allc = false;
  for (;;) {
    uint64_t x = 0;
    if (!allc) {
      Model* m = nullptr;
      SatRes r = PS.query(1, &m, g_queryBudget);
      if (r != SAT) { if (r == UNSAT) endPath(); engineError("cannot concretize (%s)", why); }
      for (uint32_t i = 0; i < w && i < 64; i++) if (m->eval(l[i])) x |= 1ull << i;
      delete m;
    } else {
      for (uint32_t i = 0; i < w && i < 64; i++) x |= (uint64_t)l[i] << i;
      return x;
    }
    Lit eq = 1;
    for (uint32_t i = 0; i < w && i < 64; i++) eq = G.land(eq, l[i] ^ ((x >> i & 1) ^ 1));
    if (decide(eq)) return x;
  }
}

// ---------------------------------------------------------------- memory access
static bool valid(uint64_t addr, uint64_t n) {
  uint64_t id = addr >> 32, off = (addr & 0xffffffff) - BIAS;
  return id && id < objs.size() && objs[id].alive && objs[id].kind != 5 && off <= objs[id].size && n <= objs[id].size - off;
}
static Obj& res(uint64_t addr, uint64_t n, uint64_t& off, bool wr) {
  uint64_t id = addr >> 32;
  off = (addr & 0xffffffff) - BIAS;
  if (__builtin_expect(id == 0 || id >= objs.size(), 0)) programFault("invalid %s of %llu bytes at address %llx", wr ? "write" : "read", (unsigned long long)n, (unsigned long long)addr);
  Obj& o = objs[id];
  if (__builtin_expect(!o.alive || o.kind == 5, 0)) programFault("%s of %llu bytes in a released object", wr ? "write" : "read", (unsigned long long)n);
  if (__builtin_expect(off > o.size || n > o.size - off, 0)) programFault("%s of %llu bytes at offset %lld of an object of %llu bytes", wr ? "write" : "read", (unsigned long long)n, (long long)off, (unsigned long long)o.size);
  if (__builtin_expect(wr && o.kind == 4, 0)) programFault("write to constant memory");
  if (__builtin_expect(wr && !specs.empty(), 0)) specSave(o, id);
  return o;
}
static void ensureFlags(Obj& o) {
  if (!o.flag) { o.flag = (uint8_t*)calloc(o.size ? o.size : 1, 1); }
}
static void ensureShadow(Obj& o) {
  if (!o.sh) {
    o.sh = (Lit*)calloc(o.size ? o.size * 8 : 1, sizeof(Lit));
    if (!o.sh) engineError("shadow allocation failed");
  }
}
static void materialize(Obj& o, uint64_t off) { // uninitialised byte -> unconstrained value
  ensureShadow(o);
  for (int k = 0; k < 8; k++) o.sh[off * 8 + k] = G.newVar(true);
  o.flag[off] = 1;
}
static inline bool anyFlag(const uint8_t* f, uint64_t n) {
  for (uint64_t i = 0; i < n; i++) if (f[i]) return true;
  return false;
}
static Val loadAt(uint64_t addr, uint32_t w) {
  uint32_t n = (w + 7) / 8;
  uint64_t off;
  Obj& o = res(addr, n, off, false);
  if ((!o.flag || !anyFlag(o.flag + off, n)) && w <= 64) {
    uint64_t v = 0;
    memcpy(&v, o.d + off, n);
    return cv(maskw(v, w));
  }
  Lit* l = lalloc(n * 8);
  for (uint32_t i = 0; i < n; i++) {
    uint8_t fl = o.flag ? o.flag[off + i] : 0;
    if (fl == 2) { materialize(o, off + i); fl = 1; }
    if (fl == 1) memcpy(l + i * 8, o.sh + (off + i) * 8, 8 * sizeof(Lit));
    else for (int k = 0; k < 8; k++) l[i * 8 + k] = (o.d[off + i] >> k) & 1;
  }
  return mk(l, w);
}
static void storeAt(uint64_t addr, const Val& v, uint32_t w) {
  uint32_t n = (w + 7) / 8;
  uint64_t off;
  Obj& o = res(addr, n, off, true);
  if (!v.p) {
    memcpy(o.d + off, &v.c, n);
    if (o.flag) memset(o.flag + off, 0, n);
    return;
  }
  const Lit* l = (Lit*)v.p;
  ensureFlags(o);
  for (uint32_t i = 0; i < n; i++) {
    uint8_t c = 0;
    bool sy = false;
    for (uint32_t k = 0; k < 8; k++) {
      Lit x = i * 8 + k < w ? l[i * 8 + k] : 0;
      if (x > 1) sy = true; else c |= x << k;
    }
    if (sy) {
      ensureShadow(o);
      for (uint32_t k = 0; k < 8; k++) o.sh[(off + i) * 8 + k] = i * 8 + k < w ? l[i * 8 + k] : 0;
      o.flag[off + i] = 1;
    } else { o.d[off + i] = c; o.flag[off + i] = 0; }
  }
}
// feasible values of a symbolic address, up to a limit
static bool enumAddr(const Val& a, std::vector<std::pair<uint64_t, Lit>>& out, size_t limit) {
  const Lit* l = (Lit*)a.p;
  Lit rest = 1;
  for (size_t k = 0; k <= limit; k++) {
    Model* m = nullptr;
    SatRes r = PS.query(rest, &m, g_queryBudget);
    if (r == UNSAT) return true;
    if (r == UNKNOWN) return false;
    if (k == limit) { delete m; return false; }
    uint64_t x = 0;
    for (int i = 0; i < 64; i++) if (m->eval(l[i])) x |= 1ull << i;
    delete m;
    Lit eq = 1;
    for (int i = 0; i < 64; i++) eq = G.land(eq, l[i] ^ ((x >> i & 1) ^ 1));
    out.push_back({x, eq});
    rest = G.land(rest, eq ^ 1);
  }
  return false;
}
static Val loadV(const Val& a, uint32_t w) {
  if (!a.p) return loadAt(a.c, w);
  std::vector<std::pair<uint64_t, Lit>> vs;
  uint32_t n = (w + 7) / 8;
  if (!enumAddr(a, vs, 300)) return loadAt(concretize(a, 64, "load address"), w);
  std::vector<std::pair<uint64_t, Lit>> good;
  for (auto& p : vs) {
    if (!valid(p.first, n)) { if (decide(p.second)) { loadAt(p.first, w); } }
    else good.push_back(p);
  }
  if (good.empty()) endPath();
  Val r = loadAt(good[0].first, w);
  if (good.size() == 1) return r;
  const Lit* cur = lits(r, w);
  for (size_t i = 1; i < good.size(); i++) {
    Lit* o = lalloc(w);
    bvMux(good[i].second, lits(loadAt(good[i].first, w), w), cur, w, o);
    cur = o;
  }
  return mk((Lit*)cur, w);
}
static void storeV(const Val& a, const Val& v, uint32_t w) {
  if (!a.p) { storeAt(a.c, v, w); return; }
  std::vector<std::pair<uint64_t, Lit>> vs;
  uint32_t n = (w + 7) / 8;
  if (!enumAddr(a, vs, 300)) { storeAt(concretize(a, 64, "store address"), v, w); return; }
  for (auto& p : vs) {
    if (!valid(p.first, n)) { if (decide(p.second)) storeAt(p.first, v, w); continue; }
    if (vs.size() == 1) { storeAt(p.first, v, w); continue; }
    Lit* o = lalloc(w);
    bvMux(p.second, lits(v, w), lits(loadAt(p.first, w), w), w, o);
    storeAt(p.first, mk(o, w), w);
  }
}
static Val loadTy(const Val& a, Ty* t) {
  if (t->kind != K_AGG) return loadV(a, t->bits);
  if (a.p) { // one of several places: select leaf by leaf
    std::vector<std::pair<uint64_t, Lit>> vs, good;
    if (enumAddr(a, vs, 300)) {
      uint32_t n = t->store;
      for (auto& p : vs) {
        if (!n || !valid(p.first, n)) { if (decide(p.second)) return loadTy(Val{p.first, nullptr}, t); }
        else good.push_back(p);
      }
      if (good.empty()) endPath();
      Val r = loadTy(Val{good[0].first, nullptr}, t);
      Val* rl = (Val*)r.p;
      size_t cnt = t->leaves.size();
      bool vec = t->isVec && cnt && t->leaves[0].off == 0xffffffffu;
      if (vec) cnt = t->nElem;
      for (size_t i = 1; i < good.size(); i++) {
        Val* ol = (Val*)loadTy(Val{good[i].first, nullptr}, t).p;
        for (size_t k = 0; k < cnt; k++) {
          uint32_t w = vec ? t->elem->bits : t->leaves[k].bits;
          Lit* o = lalloc(w);
          bvMux(good[i].second, lits(ol[k], w), lits(rl[k], w), w, o);
          rl[k] = mk(o, w);
        }
      }
      return r;
    }
  }
  uint64_t base = concretize(a, 64, "aggregate load");
  Val* ls = (Val*)arenaAlloc(sizeof(Val) * (t->leaves.size() + 1));
  if (t->isVec && t->leaves.size() && t->leaves[0].off == 0xffffffffu) {
    uint32_t tot = t->nElem * t->elem->bits;
    const Lit* l = lits(loadAt(base, tot), tot);
    for (uint32_t i = 0; i < t->nElem; i++) { Lit* e = lalloc(t->elem->bits); memcpy(e, l + i * t->elem->bits, t->elem->bits * sizeof(Lit)); ls[i] = mk(e, t->elem->bits); }
  } else
    for (size_t i = 0; i < t->leaves.size(); i++) ls[i] = loadAt(base + t->leaves[i].off, t->leaves[i].bits);
  return Val{0, ls};
}
static void storeTy(const Val& a, const Val& v, Ty* t) {
  if (t->kind != K_AGG) { storeV(a, v, t->bits); return; }
  uint64_t base = concretize(a, 64, "aggregate store");
  Val* ls = (Val*)v.p;
  if (t->isVec && t->leaves.size() && t->leaves[0].off == 0xffffffffu) {
    uint32_t tot = t->nElem * t->elem->bits;
    Lit* l = lalloc(tot);
    for (uint32_t i = 0; i < t->nElem; i++) memcpy(l + i * t->elem->bits, lits(ls[i], t->elem->bits), t->elem->bits * sizeof(Lit));
    storeAt(base, mk(l, tot), tot);
  } else
    for (size_t i = 0; i < t->leaves.size(); i++) storeAt(base + t->leaves[i].off, ls[i], t->leaves[i].bits);
}
static void copyMem(uint64_t dst, uint64_t src, uint64_t n, bool) {
  if (!n) return;
  uint64_t so, doff;
  res(src, n, so, false);
  Obj& d = res(dst, n, doff, true);
  Obj& s = objs[src >> 32];
  if (s.flag || d.flag) {
    bool sf = s.flag && anyFlag(s.flag + so, n);
    if (!sf) {
      memmove(d.d + doff, s.d + so, n);
      if (d.flag) memset(d.flag + doff, 0, n);
      return;
    }
    ensureFlags(d);
    bool sym = s.sh && memchr(s.flag + so, 1, n);
    if (sym) { ensureShadow(d); memmove(d.sh + doff * 8, s.sh + so * 8, n * 8 * sizeof(Lit)); }
    memmove(d.d + doff, s.d + so, n);
    memmove(d.flag + doff, s.flag + so, n);
  } else
    memmove(d.d + doff, s.d + so, n);
}
static void setMem(uint64_t dst, const Val& b, uint64_t n) {
  if (!n) return;
  uint64_t off;
  Obj& o = res(dst, n, off, true);
  if (!b.p) {
    memset(o.d + off, (int)b.c, n);
    if (o.flag) memset(o.flag + off, 0, n);
  } else
    for (uint64_t i = 0; i < n; i++) storeAt(dst + i, b, 8);
}
static void freeObj(uint64_t addr, const char* what) {
  if (!addr) return;
  uint64_t id = addr >> 32;
  if (id >= objs.size() || objs[id].kind != 1 || (addr & 0xffffffff) != BIAS) programFault("%s of an address that is not the start of a heap object", what);
  Obj& o = objs[id];
  if (!o.alive) programFault("%s of an object already released", what);
  if (!specs.empty() && id < specs.back()->base) throw SpecAbort();
  o.alive = false;
  liveHeap--;
  free(o.d); free(o.flag); free(o.sh);
  o.d = nullptr; o.flag = nullptr; o.sh = nullptr;
}
static std::string readStr(uint64_t a) {
  std::string s;
  for (;;) {
    Val v = loadAt(a++, 8);
    uint64_t c = concretize(v, 8, "string");
    if (!c) return s;
    s += (char)c;
    if (s.size() > 4096) return s;
  }
}

// ---------------------------------------------------------------- frames
static void covFn(Fn* f) { if (f->id < 65536) SH->cov[f->id].store(1, std::memory_order_relaxed); }
static void pushFrame(Fn* f, const Val* args, size_t nargs, Inst* call) {
  if (!f->decoded) decode(f);
  covFn(f);
  if (T->st.size() > 4000) programFault("call stack exceeds 4000 frames");
  Frame fr;
  fr.fn = f;
  fr.mci = T->arena.ci;
  fr.moff = T->arena.off;
  fr.regs = (Val*)arenaAlloc(sizeof(Val) * (f->nregs + 1));
  memset(fr.regs, 0, sizeof(Val) * (f->nregs + 1));
  fr.blk = 0;
  fr.ip = 0;
  fr.call = call;
  fr.allocas = nullptr;
  for (size_t i = 0; i < f->params.size(); i++) {
    if (i < nargs) fr.regs[i] = args[i]; else fr.regs[i] = cv(0);
    if (f->byval[i]) {
      uint64_t a = newObj(f->byval[i], 2, true);
      copyMem(a, args[i].c, f->byval[i], false);
      if (!fr.allocas) fr.allocas = new std::vector<uint32_t>;
      fr.allocas->push_back(a >> 32);
      fr.regs[i] = cv(a);
    }
  }
  T->st.push_back(fr);
}
static std::vector<uint32_t> stackFree;
static uint64_t allocStack(Frame& f, uint64_t n) {
  uint64_t a;
  if (stackFree.size() > 20000 && specs.empty()) { // reuse identifiers of long-dead stack slots
    uint32_t id = stackFree.front();
    static size_t head = 0;
    id = stackFree[head++];
    if (head > 10000) { stackFree.erase(stackFree.begin(), stackFree.begin() + head); head = 0; }
    Obj o;
    o.size = n; o.kind = 2; o.alive = true;
    o.d = (uint8_t*)calloc(n ? n : 1, 1);
    o.flag = (uint8_t*)malloc(n ? n : 1);
    memset(o.flag, 2, n);
    objs[id] = o;
    a = ((uint64_t)id << 32) + BIAS;
  } else
    a = newObj(n, 2, true);
  if (!f.allocas) f.allocas = new std::vector<uint32_t>;
  f.allocas->push_back(a >> 32);
  return a;
}
static void popFrame() {
  if (!specs.empty() && T->st.size() <= specs.back()->depth) throw SpecAbort();
  Frame& f = T->st.back();
  if (f.allocas) {
    for (uint32_t id : *f.allocas) {
      Obj& o = objs[id];
      o.alive = false;
      free(o.d); free(o.flag); free(o.sh);
      o.d = o.flag = nullptr; o.sh = nullptr;
      stackFree.push_back(id);
    }
    delete f.allocas;
  }
  T->arena.ci = f.mci;
  T->arena.off = f.moff;
  T->st.pop_back();
}
static Val deepCopyIn(const Val& v, Ty* t, std::vector<Val>& vs, std::vector<Lit>& ls, std::vector<int64_t>& lo) {
  // flatten to temporaries
  auto one = [&](const Val& x, uint32_t w) { vs.push_back(x); if (x.p) { lo.push_back(ls.size()); ls.insert(ls.end(), (Lit*)x.p, (Lit*)x.p + w); } else lo.push_back(-1); };
  if (t->kind == K_AGG) { Val* p = (Val*)v.p; for (size_t i = 0; i < t->leaves.size(); i++) one(p[i], t->leaves[i].bits); }
  else one(v, t->bits);
  return v;
}
static Val deepCopyOut(Ty* t, std::vector<Val>& vs, std::vector<Lit>& ls, std::vector<int64_t>& lo) {
  auto one = [&](size_t i, uint32_t w) { Val x = vs[i]; if (lo[i] >= 0) { Lit* l = lalloc(w); memcpy(l, &ls[lo[i]], w * sizeof(Lit)); x.p = l; } return x; };
  if (t->kind == K_AGG) { Val* p = (Val*)arenaAlloc(sizeof(Val) * (t->leaves.size() + 1)); for (size_t i = 0; i < t->leaves.size(); i++) p[i] = one(i, t->leaves[i].bits); return Val{0, p}; }
  return one(0, t->bits);
}

static inline Val get(Frame& f, int32_t o) { return o >= 0 ? f.regs[o] : constVals[-1 - o]; }

static void gotoBlock(Frame& f, int32_t t) {
  Block& b = f.fn->blocks[t];
  if (!b.in.empty()) {
    auto it = b.in.find(f.blk);
    if (it != b.in.end()) {
      auto& mv = it->second;
      if (mv.size() == 1) f.regs[mv[0].dst] = get(f, mv[0].src);
      else {
        Val tmp[64];
        std::vector<Val> big;
        Val* p = tmp;
        if (mv.size() > 64) { big.resize(mv.size()); p = big.data(); }
        for (size_t i = 0; i < mv.size(); i++) p[i] = get(f, mv[i].src);
        for (size_t i = 0; i < mv.size(); i++) f.regs[mv[i].dst] = p[i];
      }
    }
  }
  f.blk = t;
  f.ip = 0;
  if (!specs.empty() && t == specs.back()->join && T == specs.back()->thread && T->st.size() == specs.back()->depth) specArrived = true;
}

// ---------------------------------------------------------------- exceptions
struct Exc { uint64_t ti, dtor, adjusted; };
static std::map<uint64_t, Exc> excs;
static uint64_t rd64(uint64_t a) { Val v = loadAt(a, 64); return concretize(v, 64, "rtti"); }
// does exception type ti match catch type c?  adjusts the object pointer
static bool tiMatch(uint64_t ti, uint64_t c, uint64_t& obj, int depth = 0) {
  if (ti == c) return true;
  if (depth > 16) return false;
  static uint64_t si = globalAddr("_ZTVN10__cxxabiv120__si_class_type_infoE"), vmi = globalAddr("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
  uint64_t vt = rd64(ti);
  if (si && (vt >> 32) == (si >> 32)) return tiMatch(rd64(ti + 16), c, obj, depth + 1);
  if (vmi && (vt >> 32) == (vmi >> 32)) {
    uint64_t n = rd64(ti + 16) >> 32;
    for (uint64_t i = 0; i < n; i++) {
      uint64_t b = rd64(ti + 24 + i * 16);
      int64_t of = (int64_t)rd64(ti + 32 + i * 16);
      uint64_t o2 = obj;
      if (of & 1) { // virtual base: offset stored in the vtable of the object
        uint64_t v = rd64(obj);
        o2 = obj + rd64(v + (of >> 8));
      } else o2 = obj + (of >> 8);
      if (tiMatch(b, c, o2, depth + 1)) { obj = o2; return true; }
    }
  }
  return false;
}
static uint64_t excThrown = 0;
static void unwind(uint64_t ex) {
  // phase 1: is there a handler?
  Exc& e = excs[ex];
  excThrown++;
  for (;;) {
    Frame& f = T->st.back();
    Inst* call = f.ip < (int)f.fn->blocks[f.blk].insts.size() ? &f.fn->blocks[f.blk].insts[f.ip] : nullptr;
    if (call && (call->op == O_INVOKE || (call->op == O_INTRIN && call->sub == 1))) {
      Block& lb = f.fn->blocks[call->t1];
      Inst* lp = nullptr;
      for (auto& i : lb.insts) if (i.op == O_LANDINGPAD) { lp = &i; break; }
      if (!lp) engineError("no landing pad");
      int64_t sel = -1;
      for (uint64_t c : lp->imms) {
        if (c == ~0ull) continue;
        if (c == 0) { e.adjusted = ex; sel = 1; break; }
        uint64_t o = ex;
        if (tiMatch(e.ti, c, o)) { e.adjusted = o; sel = (int64_t)(c >> 32); break; }
      }
      if (sel < 0 && lp->sub) sel = 0;
      if (sel >= 0) {
        gotoBlock(f, call->t1);
        Val* ls = (Val*)arenaAlloc(sizeof(Val) * 3);
        ls[0] = cv(ex);
        ls[1] = cv((uint64_t)sel);
        f.regs[lp->dst] = Val{0, ls};
        // skip to after the landing pad
        for (size_t i = 0; i < lb.insts.size(); i++) if (&lb.insts[i] == lp) f.ip = i + 1;
        return;
      }
    }
    if (T->st.size() == 1) {
      std::string tn = readStr(rd64(e.ti + 8));
      programFault("exception of type %s leaves %s", tn.c_str(), T->id == 0 ? "the program" : "a thread");
    }
    popFrame();
  }
}

// ---------------------------------------------------------------- threads
static std::map<uint64_t, int> mutexOwner; // address -> thread id + 1
static std::map<uint64_t, int> mutexDepth;
static std::map<uint64_t, std::vector<int>> condWaiters;
static int preemptLeft = 0;
static bool exploring = false;
static bool runnable(Thread* t) {
  if (t->stat == T_RUN) return true;
  if (t->stat == T_DONE) return false;
  switch (t->waitKind) {
    case 1: return mutexOwner[t->waitA] == 0;
    case 2: return false;
    case 3: { Val v = loadAt(t->waitA, 32); return v.p || v.c != t->waitB; }
    case 4: return threads[t->waitA]->stat == T_DONE;
    case 5: { Val v = loadAt(t->waitA, 8); return v.p || v.c != t->waitB; }
  }
  return false;
}
static void switchTo(Thread* t) { specStop(); T = t; if (t->stat == T_BLOCKED) t->stat = T_RUN; }
static int chooseThread(std::vector<Thread*>& r) {
  // symbolic choice among r.size() alternatives
  specStop();
  SH->schedPoints++;
  uint32_t w = 0;
  while ((1u << w) < r.size()) w++;
  SymRec s{"__sched", symCount["__sched"]++, {}};
  uint64_t rv;
  if (replayed("__sched", s.idx, rv)) return rv < r.size() ? rv : r.size() - 1;
  Lit* l = lalloc(w + 1);
  for (uint32_t i = 0; i < w; i++) { l[i] = G.newVar(); s.bits.push_back(l[i]); }
  syms.push_back(s);
  for (size_t i = 0; i + 1 < r.size(); i++) {
    Lit eq = 1;
    for (uint32_t k = 0; k < w; k++) eq = G.land(eq, l[k] ^ ((i >> k & 1) ^ 1));
    if (decide(eq)) return i;
  }
  return r.size() - 1;
}
static void reschedule() { // current thread cannot continue
  specStop();
  std::vector<Thread*> r;
  for (size_t k = 1; k <= threads.size(); k++) { Thread* t = threads[(T->id + k) % threads.size()]; if (runnable(t)) r.push_back(t); }
  if (r.empty()) programFault("deadlock: no thread can make progress");
  if (exploring && r.size() > 1) switchTo(r[chooseThread(r)]);
  else switchTo(r[0]);
}
// possible preemption before a synchronisation operation; true if another thread was scheduled
static bool schedPoint() {
  if (!exploring || preemptLeft <= 0) return false;
  specStop();
  if (T->phase & 0x100) { T->phase &= ~0x100; return false; }
  std::vector<Thread*> r{T};
  for (auto* t : threads) if (t != T && runnable(t)) r.push_back(t);
  if (r.size() < 2) return false;
  int k = chooseThread(r);
  T->phase |= 0x100; // do not ask again for the same operation
  if (k == 0) { T->phase &= ~0x100; return false; }
  preemptLeft--;
  switchTo(r[k]);
  return true;
}

// ---------------------------------------------------------------- builtins
enum BR { B_DONE, B_RETRY, B_THROW, B_JUMPED };
static Val* A; // arguments of the current builtin
static Val R;  // result
static Inst* CI;
static uint64_t cargs(int i, const char* w = "builtin argument") { return concretize(A[i], CI->opTys[i]->bits, w); }
#define ARG(i) cargs(i)

static Val symValue(const std::string& name, uint32_t bits, uint32_t outw) {
  specStop();
  SymRec s{name, symCount[name]++, {}};
  uint64_t rv;
  if (replayed(name, s.idx, rv)) return cv(maskw(rv, bits));
  Lit* l = lalloc(outw);
  for (uint32_t i = 0; i < outw; i++) { l[i] = i < bits ? G.newVar() : 0; if (i < bits) s.bits.push_back(l[i]); }
  syms.push_back(s);
  SH->symVars += bits;
  return mk(l, outw);
}
static Lit truth(const Val& v, uint32_t w) {
  if (!v.p) return v.c ? 1 : 0;
  Lit r = 0;
  for (uint32_t i = 0; i < w; i++) r = G.lor(r, ((Lit*)v.p)[i]);
  return r;
}
static int b_sym(void) {
  std::string n = readStr(ARG(0));
  for (auto& c : n) if (c == ' ') c = '_';
  R = symValue(n, ARG(1), 64);
  return B_DONE;
}
static int b_assume(void) {
  Lit l = truth(A[0], CI->opTys[0]->bits);
  if (l != 1) specStop();
  if (l == 0) { SH->assumesKilled++; finishProcess(); }
  if (l > 1) {
    SatRes r = PS.query(l, nullptr, g_queryBudget);
    if (r == UNSAT) { SH->assumesKilled++; finishProcess(); }
    PS.add(l);
  }
  return B_DONE;
}
static int b_check(void) {
  SH->checks++;
  Lit l = truth(A[0], CI->opTys[0]->bits);
  if (l == 1) { SH->checksConst++; return B_DONE; }
  std::string msg = readStr(ARG(1));
  if (l == 0) specStop();
  if (l == 0) { SH->checksViol++; reportViolation(msg, 1); maxWitness = 0; endPath(); }
  double t0 = now();
  SatRes r = PS.query(l ^ 1, nullptr, g_queryBudget);
  if (verbose) fprintf(stderr, "check %.2fs %s\n", now() - t0, msg.c_str());
  if (r == UNSAT) { SH->checksUnsat++; return B_DONE; }
  specStop();
  if (r == UNKNOWN) { SH->unknownChecks++; fprintf(stderr, "engine: solver gave no answer on: %s\n", msg.c_str()); return B_DONE; }
  SH->checksViol++;
  reportViolation(msg, l ^ 1);
  if (PS.query(l, nullptr, g_queryBudget) == UNSAT) { maxWitness = 0; endPath(); }
  PS.add(l);
  return B_DONE;
}
static int b_reach(void) {
  std::string s = readStr(ARG(0));
  uint32_t n = SH->nreach;
  for (uint32_t i = 0; i < n && i < 64; i++) if (s == SH->reachName[i]) { SH->reach[i] = 1; return B_DONE; }
  uint32_t k = SH->nreach++;
  if (k < 64) { strncpy(SH->reachName[k], s.c_str(), 95); SH->reach[k] = 1; }
  return B_DONE;
}
static int b_concrete(void) { R = cv(ARG(0)); return B_DONE; }
static int b_issym(void) { R = cv(1); return B_DONE; }
static int b_hassym(void) { bool s = false; if (A[0].p) for (int i = 0; i < 64; i++) if (((Lit*)A[0].p)[i] > 1) s = true; R = cv(s); return B_DONE; }
static int perBit(Lit (*f)(Lit)) {
  if (!A[0].p) { R = A[0]; return B_DONE; }
  Lit* o = lalloc(64);
  for (int i = 0; i < 64; i++) o[i] = f(((Lit*)A[0].p)[i]);
  R = mk(o, 64);
  return B_DONE;
}
static int b_print(void) { specStop();
  std::string s = readStr(ARG(0));
  if (A[1].p) {
    std::string h;
    for (int i = 63; i >= 0; i--) h += ((Lit*)A[1].p)[i] == 0 ? '0' : ((Lit*)A[1].p)[i] == 1 ? '1' : 'x';
    fprintf(stderr, "[vf %d] %s %s\n", getpid(), s.c_str(), h.c_str());
  } else fprintf(stderr, "[vf %d] %s %llu (0x%llx)\n", getpid(), s.c_str(), (unsigned long long)A[1].c, (unsigned long long)A[1].c);
  return B_DONE;
}
static int b_fault(void) { programFault("%s", readStr(ARG(0)).c_str()); return B_DONE; }
static int b_unsupported(void) { specStop(); engineError("unsupported: %s", readStr(ARG(0)).c_str()); return B_DONE; }
static int b_explore(void) { specStop(); exploring = true; preemptLeft = ARG(0); return B_DONE; }
static int b_yield(void) { if (schedPoint()) return B_RETRY; return B_DONE; }
static int b_endpath(void) { endPath(); return B_DONE; }
static int b_malloc(void) {
  uint64_t n = ARG(0);
  if (n > (1ull << 31)) programFault("allocation of %llu bytes", (unsigned long long)n);
  liveHeap++;
  R = cv(newObj(n, 1, true)); return B_DONE;
}
static int b_new(void) {
  uint64_t n = ARG(0);
  if (n > (1ull << 31)) programFault("allocation of %llu bytes", (unsigned long long)n);
  liveHeap++;
  R = cv(newObj(n, 1, true)); return B_DONE;
}
static int b_calloc(void) { liveHeap++; R = cv(newObj(ARG(0) * ARG(1), 1, false)); return B_DONE; }
static int b_realloc(void) {
  uint64_t old = ARG(0), n = ARG(1);
  liveHeap++;
  uint64_t a = newObj(n, 1, true);
  if (old) { copyMem(a, old, std::min(n, objs[old >> 32].size), true); freeObj(old, "realloc"); }
  R = cv(a); return B_DONE;
}
static int b_free(void) { freeObj(ARG(0), "free"); return B_DONE; }
static int b_delete(void) { freeObj(ARG(0), "delete"); return B_DONE; }
static int b_liveheap(void) { R = cv(liveHeap); return B_DONE; }
static int b_memcpy(void) { uint64_t d = ARG(0), s = ARG(1), n = ARG(2); copyMem(d, s, n, true); R = cv(d); return B_DONE; }
static int b_memset(void) {
  Val b = A[1];
  if (b.p) { Lit* l = lalloc(8); memcpy(l, b.p, 8 * sizeof(Lit)); b = mk(l, 8); }
  uint64_t d = ARG(0), n = ARG(2);
  setMem(d, b, n); R = cv(d); return B_DONE;
}
static int b_memcmp(void) {
  uint64_t a = ARG(0), b = ARG(1), n = ARG(2);
  if (n) { uint64_t o; res(a, n, o, false); res(b, n, o, false); }
  Lit* r = lalloc(32);
  for (int i = 0; i < 32; i++) r[i] = 0;
  for (uint64_t i = n; i-- > 0;) {
    Val x = loadAt(a + i, 8), y = loadAt(b + i, 8);
    if (!x.p && !y.p) {
      if (x.c == y.c) continue;
      for (int k = 0; k < 32; k++) r[k] = x.c < y.c ? 1 : (k == 0);
      continue;
    }
    const Lit *p = lits(x, 8), *q = lits(y, 8);
    Lit eq = bvEq(p, q, 8), lt = bvUlt(p, q, 8);
    for (int k = 0; k < 32; k++) r[k] = G.mux(eq, r[k], k == 0 ? 1 : lt);
  }
  R = mk(r, 32);
  return B_DONE;
}
static int b_strlen(void) {
  uint64_t a = ARG(0), n = 0;
  for (;; n++) { Val v = loadAt(a + n, 8); if (v.p) { if (decide(truth(v, 8) ^ 1)) break; } else if (!v.c) break; }
  R = cv(n); return B_DONE;
}
static int b_zero(void) { R = cv(0); return B_DONE; }
static int b_abort(void) { programFault("abort called"); return B_DONE; }
static int b_terminate(void) { programFault("std::terminate called"); return B_DONE; }
static int b_assertfail(void) { programFault("assertion failed: %s", readStr(ARG(0)).c_str()); return B_DONE; }
static int b_allocexc(void) { specStop();  R = cv(newObj(ARG(0), 1, true)); liveHeap++; return B_DONE; }
static int b_freeexc(void) { return B_DONE; }
static int b_throw(void) { uint64_t ex = ARG(0); excs[ex] = Exc{ARG(1), ARG(2), ex}; unwind(ex); return B_JUMPED; }
static int b_dyncast(void) {
  uint64_t p = ARG(0), dst = ARG(2);
  if (!p) { R = cv(0); return B_DONE; }
  uint64_t vt = rd64(p);
  uint64_t whole = p + rd64(vt - 16);
  uint64_t o = whole;
  R = cv(tiMatch(rd64(vt - 8), dst, o) ? o : 0);
  return B_DONE;
}
static int b_begincatch(void) { specStop(); uint64_t ex = ARG(0); T->caught.push_back(ex); R = cv(excs[ex].adjusted); return B_DONE; }
static int b_endcatch(void) { specStop(); if (!T->caught.empty()) T->caught.pop_back(); return B_DONE; }
static int b_getexcptr(void) { R = cv(excs[ARG(0)].adjusted); return B_DONE; }
static int b_rethrow(void) { specStop(); if (T->caught.empty()) programFault("rethrow without exception"); uint64_t ex = T->caught.back(); T->caught.pop_back(); unwind(ex); return B_JUMPED; }
static int b_curexc(void) { R = cv(T->caught.empty() ? 0 : T->caught.back()); return B_DONE; }
static int b_rethrowptr(void) { unwind(ARG(0)); return B_JUMPED; }
static int b_mkexc(void) { excs[ARG(0)] = Exc{ARG(1), ARG(2), ARG(0)}; R = cv(ARG(0)); return B_DONE; }
static int b_exctype(void) { R = cv(excs[ARG(0)].ti); return B_DONE; }
static int b_guardacq(void) { uint64_t g = ARG(0); Val v = loadAt(g, 8); if (!v.c) specStop(); R = cv(v.c ? 0 : 1); return B_DONE; }
static int b_guardrel(void) { storeAt(ARG(0), cv(1), 8); return B_DONE; }
static int b_mutexlock(void) {
  if (schedPoint()) return B_RETRY;
  uint64_t m = ARG(0);
  if (mutexOwner[m] == 0) { mutexOwner[m] = T->id + 1; mutexDepth[m] = 1; R = cv(0); return B_DONE; }
  if (mutexOwner[m] == T->id + 1) programFault("deadlock: a thread locks a mutex it already holds");
  T->stat = T_BLOCKED; T->waitKind = 1; T->waitA = m;
  reschedule();
  return B_RETRY;
}
static int b_mutextrylock(void) {
  uint64_t m = ARG(0);
  if (mutexOwner[m] == 0) { mutexOwner[m] = T->id + 1; R = cv(0); } else R = cv(16);
  return B_DONE;
}
static int b_mutexunlock(void) {
  uint64_t m = ARG(0);
  if (mutexOwner[m] != T->id + 1) programFault("a thread unlocks a mutex it does not hold");
  mutexOwner[m] = 0;
  R = cv(0);
  return B_DONE;
}
static int b_condwait(void) { specStop(); // (cv, mutex)
  uint64_t c = ARG(0), m = ARG(1);
  int ph = T->phase & 0xff;
  if (ph == 0) {
    if (mutexOwner[m] != T->id + 1) programFault("condition wait without holding the mutex");
    mutexOwner[m] = 0;
    condWaiters[c].push_back(T->id);
    T->phase = 1;
    T->stat = T_BLOCKED; T->waitKind = 2;
    reschedule();
    return B_RETRY;
  }
  // woken
  if (mutexOwner[m] != 0) { T->stat = T_BLOCKED; T->waitKind = 1; T->waitA = m; reschedule(); return B_RETRY; }
  mutexOwner[m] = T->id + 1;
  T->phase = 0;
  R = cv(0);
  return B_DONE;
}
static int b_condnotify(void) { // (cv, all)
  if (schedPoint()) return B_RETRY;
  uint64_t c = ARG(0);
  bool all = ARG(1);
  auto& w = condWaiters[c];
  if (!w.empty()) specStop();
  while (!w.empty()) {
    size_t k = 0;
    Thread* t = threads[w[k]];
    w.erase(w.begin() + k);
    t->stat = T_RUN;
    if (!all) break;
  }
  R = cv(0);
  return B_DONE;
}
static int b_futexwait(void) { specStop(); // (addr, val): block while *addr == val
  uint64_t a = ARG(0), v = ARG(1);
  Val x = loadAt(a, 32);
  if (x.p || x.c != (v & 0xffffffff)) { R = cv(1); return B_DONE; }
  T->stat = T_BLOCKED; T->waitKind = 3; T->waitA = a; T->waitB = v & 0xffffffff;
  reschedule();
  return B_RETRY;
}
static int b_threadcreate(void) { specStop(); // (fn, arg) -> id
  Thread* cur = T;
  Thread* t = new Thread;
  t->id = threads.size();
  threads.push_back(t);
  uint64_t fa = ARG(0);
  Val arg = A[1];
  T = t;
  pushFrame(fns[objs[fa >> 32].aux], &arg, 1, nullptr);
  T = cur;
  R = cv(t->id);
  return B_DONE;
}
static int b_threadjoin(void) { specStop();
  uint64_t id = ARG(0);
  if (id >= threads.size()) programFault("join of an unknown thread");
  if (threads[id]->stat == T_DONE) { R = cv(0); return B_DONE; }
  T->stat = T_BLOCKED; T->waitKind = 4; T->waitA = id;
  reschedule();
  return B_RETRY;
}
static int b_threadself(void) { R = cv(T->id); return B_DONE; }
static int b_sboxlits(void) { return B_DONE; }
static int b_exit(void) { endPath(); return B_DONE; }
static uint64_t clockNs = 1000000000ull;
static int b_clock(void) { R = cv(clockNs += 1000); return B_DONE; }
static int b_nop(void) { R = cv(0); return B_DONE; }
static int b_math1(double (*fn)(double)) { double d; uint64_t u = ARG(0); memcpy(&d, &u, 8); d = fn(d); memcpy(&u, &d, 8); R = cv(u); return B_DONE; }
static int b_aesblock(void) { return B_DONE; }

typedef int (*BF)(void);
static const std::map<std::string, BF> builtins = {
    {"vf_sym", b_sym}, {"vf_assume", b_assume}, {"vf_check", b_check}, {"vf_reach", b_reach}, {"vf_concrete", b_concrete},
    {"vf_symbolic_mode", b_issym}, {"vf_is_symbolic", b_hassym}, {"vf_cut", [] { return perBit(cutPoint); }}, {"vf_canon", [] { return perBit(canonLit); }}, {"vf_print", b_print}, {"vf_fault", b_fault}, {"vf_unsupported", b_unsupported},
    {"vf_merge_branches", [] { mergeOn = ARG(0); return (int)B_DONE; }}, {"vf_explore_schedules", b_explore}, {"vf_yield", b_yield}, {"vf_end_path", b_endpath}, {"vf_live_heap", b_liveheap},
    {"malloc", b_malloc}, {"calloc", b_calloc}, {"realloc", b_realloc}, {"free", b_free},
    {"_Znwm", b_new}, {"_Znam", b_new}, {"_ZnwmSt11align_val_t", b_new}, {"_ZnamSt11align_val_t", b_new}, {"_ZnwmRKSt9nothrow_t", b_new}, {"_ZnamRKSt9nothrow_t", b_new},
    {"_ZdlPv", b_delete}, {"_ZdaPv", b_delete}, {"_ZdlPvm", b_delete}, {"_ZdaPvm", b_delete}, {"_ZdlPvSt11align_val_t", b_delete}, {"_ZdlPvmSt11align_val_t", b_delete}, {"_ZdlPvRKSt9nothrow_t", b_delete}, {"_ZdaPvSt11align_val_t", b_delete}, {"_ZdaPvmSt11align_val_t", b_delete},
    {"aligned_alloc", [] { R = cv(newObj(ARG(1), 1, true)); liveHeap++; return (int)B_DONE; }},
    {"memcpy", b_memcpy}, {"memmove", b_memcpy}, {"memset", b_memset}, {"memcmp", b_memcmp}, {"bcmp", b_memcmp}, {"strlen", b_strlen},
    {"abort", b_abort}, {"exit", b_exit}, {"_ZSt9terminatev", b_terminate}, {"__assert_fail", b_assertfail}, {"__cxa_pure_virtual", b_abort},
    {"__cxa_allocate_exception", b_allocexc}, {"__cxa_free_exception", b_freeexc}, {"__cxa_throw", b_throw}, {"__dynamic_cast", b_dyncast}, {"__cxa_begin_catch", b_begincatch}, {"__cxa_end_catch", b_endcatch},
    {"__cxa_get_exception_ptr", b_getexcptr}, {"__cxa_rethrow", b_rethrow}, {"vf_cur_exc", b_curexc}, {"vf_rethrow_ptr", b_rethrowptr}, {"vf_make_exc", b_mkexc}, {"vf_exc_type", b_exctype},
    {"__cxa_guard_acquire", b_guardacq}, {"__cxa_guard_release", b_guardrel}, {"__cxa_guard_abort", b_nop}, {"__cxa_atexit", b_zero}, {"__cxa_thread_atexit", b_zero}, {"atexit", b_zero},
    {"pthread_mutex_lock", b_mutexlock}, {"pthread_mutex_unlock", b_mutexunlock}, {"pthread_mutex_trylock", b_mutextrylock}, {"pthread_mutex_destroy", b_zero}, {"pthread_mutex_init", b_zero}, {"pthread_cond_destroy", b_zero},
    {"vf_cond_wait", b_condwait}, {"vf_cond_notify", b_condnotify}, {"vf_futex_wait", b_futexwait}, {"vf_thread_create", b_threadcreate}, {"vf_thread_join", b_threadjoin}, {"vf_thread_self", b_threadself}, {"pthread_self", b_threadself},
    {"vf_clock", b_clock}, {"usleep", b_nop}, {"sched_yield", b_nop}, {"printf", b_nop}, {"puts", b_nop}, {"fprintf", b_nop}, {"fflush", b_nop}, {"putchar", b_nop},
    {"floor", [] { return b_math1(floor); }}, {"ceil", [] { return b_math1(ceil); }}, {"sqrt", [] { return b_math1(sqrt); }}, {"log2", [] { return b_math1(log2); }}, {"log", [] { return b_math1(log); }}, {"round", [] { return b_math1(round); }}, {"exp", [] { return b_math1(exp); }}, {"exp2", [] { return b_math1(exp2); }}, {"trunc", [] { return b_math1(trunc); }}, {"fabs", [] { return b_math1(fabs); }},
};

// ---------------------------------------------------------------- scalar operations
static void bswapBits(const Lit* a, uint32_t w, Lit* o) { for (uint32_t i = 0; i < w; i++) o[i] = a[(w / 8 - 1 - i / 8) * 8 + i % 8]; }
static Val binop(int op, const Val& a, const Val& b, uint32_t w, const Inst& in) {
  if (!a.p && !b.p) {
    uint64_t x = a.c, y = b.c;
    switch (op) {
      case O_ADD: return cv(maskw(x + y, w));
      case O_SUB: return cv(maskw(x - y, w));
      case O_MUL: return cv(maskw(x * y, w));
      case O_UDIV: if (!y) programFault("division by zero"); return cv(x / y);
      case O_UREM: if (!y) programFault("division by zero"); return cv(x % y);
      case O_SDIV: { int64_t p = sext(x, w), q = sext(y, w); if (!q || (q == -1 && p == INT64_MIN)) programFault("division by zero or overflow"); return cv(maskw(p / q, w)); }
      case O_SREM: { int64_t p = sext(x, w), q = sext(y, w); if (!q) programFault("division by zero"); if (q == -1) return cv(0); return cv(maskw(p % q, w)); }
      case O_SHL: return cv(y >= w ? 0 : maskw(x << y, w));
      case O_LSHR: return cv(y >= w ? 0 : x >> y);
      case O_ASHR: return cv(maskw(sext(x, w) >> (y >= w ? 63 : y), w));
      case O_AND: return cv(x & y);
      case O_OR: return cv(x | y);
      case O_XOR: return cv(x ^ y);
    }
  }
  if (op == O_AND || op == O_OR || op == O_MUL) { // absorbing constants
    if (w <= 64) {
      if (op != O_OR && ((!a.p && !a.c) || (!b.p && !b.c))) return cv(0);
    }
  }
  const Lit *x = lits(a, w), *y = lits(b, w);
  Lit* o = lalloc(w);
  switch (op) {
    case O_ADD: bvRing('+', x, y, w, o); break;
    case O_SUB: bvRing('-', x, y, w, o); break;
    case O_MUL: bvRing('*', x, y, w, o); break;
    case O_UDIV: case O_UREM: case O_SDIV: case O_SREM: {
      Val yv = mk((Lit*)y, w);
      Lit nz = 0; for (uint32_t i = 0; i < w; i++) nz = G.lor(nz, y[i]);
      (void)yv;
      if (!decide(nz)) programFault("division by zero");
      if (op == O_UDIV) bvUdivrem(x, y, w, o, nullptr);
      else if (op == O_UREM) bvUdivrem(x, y, w, nullptr, o);
      else {
        Lit sx = x[w - 1], sy = y[w - 1];
        Lit *ax = lalloc(w), *ay = lalloc(w), *t = lalloc(w), *q = lalloc(w), *r = lalloc(w), *zero = lalloc(w);
        for (uint32_t i = 0; i < w; i++) zero[i] = 0;
        bvNot(x, w, t); Lit* nx = lalloc(w); bvAdd(t, zero, 1, w, nx); bvMux(sx, nx, x, w, ax);
        bvNot(y, w, t); Lit* ny = lalloc(w); bvAdd(t, zero, 1, w, ny); bvMux(sy, ny, y, w, ay);
        bvUdivrem(ax, ay, w, q, r);
        const Lit* src = op == O_SDIV ? q : r;
        Lit sg = op == O_SDIV ? G.lxor(sx, sy) : sx;
        bvNot(src, w, t); Lit* ns = lalloc(w); bvAdd(t, zero, 1, w, ns);
        bvMux(sg, ns, src, w, o);
      }
      break;
    }
    case O_SHL: {
      uint64_t k = 0;
      bool cst = w >= 16 && w <= 64;
      for (uint32_t i = 0; i < w && cst; i++) { if (y[i] > 1) cst = false; else k |= (uint64_t)y[i] << i; }
      if (cst && k < w) { // a multiplication, so that ring identities see it
        Lit *t = lalloc(w), *s = lalloc(w);
        bvShift(0, x, y, w, s);
        for (uint32_t i = 0; i < w; i++) t[i] = i == k;
        bvRingAlias('*', x, t, w, s, o);
      } else bvShift(0, x, y, w, o);
      break;
    }
    case O_LSHR: bvShift(1, x, y, w, o); break;
    case O_ASHR: bvShift(2, x, y, w, o); break;
    case O_AND: for (uint32_t i = 0; i < w; i++) o[i] = G.land(x[i], y[i]); break;
    case O_OR: for (uint32_t i = 0; i < w; i++) o[i] = G.lor(x[i], y[i]); break;
    case O_XOR: for (uint32_t i = 0; i < w; i++) o[i] = G.lxor(x[i], y[i]); break;
    default: engineError("binop %d", op);
  }
  return mk(o, w);
}
static double asD(const Val& v, uint8_t k) {
  uint64_t c = concretize(v, k == K_F32 ? 32 : 64, "floating-point value");
  if (k == K_F32) { float f; uint32_t u = c; memcpy(&f, &u, 4); return f; }
  double d; memcpy(&d, &c, 8); return d;
}
static Val fromD(double d, uint8_t k) {
  if (k == K_F32) { float f = d; uint32_t u; memcpy(&u, &f, 4); return cv(u); }
  uint64_t u; memcpy(&u, &d, 8); return cv(u);
}
static bool symF(const Val& v, uint8_t k) { return v.p && mk((Lit*)v.p, k == K_F32 ? 32 : 64).p; }
static FpFormat fmtOf(uint8_t k) { if (k != K_F32 && k != K_F64) engineError("floating-point format"); return k == K_F32 ? F32 : F64; }
static Val fbin(int op, const Val& a, const Val& b, uint8_t k) {
  if ((symF(a, k) || symF(b, k)) && op != O_FREM) {
    FpFormat f = fmtOf(k);
    uint32_t w = f.eb + f.mb + 1;
    const Lit *x = lits(a, w), *y = lits(b, w);
    Lit* o = lalloc(w);
    switch (op) { case O_FADD: fpAdd(x, y, f, false, o); break; case O_FSUB: fpAdd(x, y, f, true, o); break; case O_FMUL: fpMul(x, y, f, o); break; case O_FDIV: fpDiv(x, y, f, o); break; }
    return mk(o, w);
  }
  double x = asD(a, k), y = asD(b, k), r = 0;
  switch (op) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break; case O_FDIV: r = x / y; break; case O_FREM: r = fmod(x, y); break; }
  return fromD(r, k);
}
static Val icmp(int pred, const Val& a, const Val& b, uint32_t w) {
  if (!a.p && !b.p) {
    uint64_t x = a.c, y = b.c; int64_t p = sext(x, w), q = sext(y, w);
    bool r = false;
    switch (pred) {
      case 32: r = x == y; break; case 33: r = x != y; break; case 34: r = x > y; break; case 35: r = x >= y; break;
      case 36: r = x < y; break; case 37: r = x <= y; break; case 38: r = p > q; break; case 39: r = p >= q; break; case 40: r = p < q; break; case 41: r = p <= q; break;
    }
    return cv(r);
  }
  const Lit *x = lits(a, w), *y = lits(b, w);
  Lit r = 0;
  switch (pred) {
    case 32: r = bvEq(x, y, w); break; case 33: r = bvEq(x, y, w) ^ 1; break;
    case 34: r = bvUlt(y, x, w); break; case 35: r = bvUlt(x, y, w) ^ 1; break; case 36: r = bvUlt(x, y, w); break; case 37: r = bvUlt(y, x, w) ^ 1; break;
    case 38: r = bvSlt(y, x, w); break; case 39: r = bvSlt(x, y, w) ^ 1; break; case 40: r = bvSlt(x, y, w); break; case 41: r = bvSlt(y, x, w) ^ 1; break;
  }
  Lit* o = lalloc(1); o[0] = r;
  return mk(o, 1);
}
static Val fcmp(int pred, const Val& a, const Val& b, uint8_t k) {
  if (symF(a, k) || symF(b, k)) {
    FpFormat f = fmtOf(k);
    uint32_t w = f.eb + f.mb + 1;
    const Lit *x = lits(a, w), *y = lits(b, w);
    Lit eq, un, lt = fpLess(x, y, f, &eq, &un), gt = fpLess(y, x, f, &eq, &un);
    Lit* o = lalloc(1);
    o[0] = 0;
    if (pred & 1) o[0] = G.lor(o[0], eq);
    if (pred & 2) o[0] = G.lor(o[0], gt);
    if (pred & 4) o[0] = G.lor(o[0], lt);
    if (pred & 8) o[0] = G.lor(o[0], un);
    return mk(o, 1);
  }
  double x = asD(a, k), y = asD(b, k);
  bool un = x != x || y != y, r = false;
  bool eq = x == y, gt = x > y, lt = x < y;
  r = ((pred & 1) && eq) || ((pred & 2) && gt) || ((pred & 4) && lt) || ((pred & 8) && un);
  return cv(r);
}
static Val castop(int op, const Val& a, Ty* from, Ty* to) {
  uint32_t fw = from->bits, tw = to->bits;
  switch (op) {
    case O_ITRUNC: if (!a.p) return cv(maskw(a.c, tw)); { Lit* o = lalloc(tw); memcpy(o, a.p, tw * sizeof(Lit)); return mk(o, tw); }
    case O_ZEXT: if (!a.p && tw <= 64) return cv(a.c); { const Lit* x = lits(a, fw); Lit* o = lalloc(tw); for (uint32_t i = 0; i < tw; i++) o[i] = i < fw ? x[i] : 0; return mk(o, tw); }
    case O_SEXT: if (!a.p && tw <= 64) return cv(maskw(sext(a.c, fw), tw)); { const Lit* x = lits(a, fw); Lit* o = lalloc(tw); for (uint32_t i = 0; i < tw; i++) o[i] = i < fw ? x[i] : x[fw - 1]; return mk(o, tw); }
    case O_NOPCAST: return a;
    case O_FPEXT: case O_FPTRUNC:
      if (symF(a, from->kind)) { FpFormat f = fmtOf(from->kind), t = fmtOf(to->kind); Lit* o = lalloc(tw); fpConvert(lits(a, fw), f, t, o); return mk(o, tw); }
      return fromD(asD(a, from->kind), to->kind);
    case O_FPTOUI: case O_FPTOSI: if (symF(a, from->kind)) {
      Lit* o = lalloc(tw); Lit bad;
      fpToInt(lits(a, fw), fmtOf(from->kind), op == O_FPTOSI, tw, o, &bad);
      if (!decide(bad ^ 1)) programFault("floating-point value beyond the range of the integer type");
      return mk(o, tw);
    } else if (op == O_FPTOSI) { double d = asD(a, from->kind), l = ldexp(1, tw - 1); if (!(trunc(d) >= -l && trunc(d) < l)) programFault("floating-point value beyond the range of the integer type"); return cv(maskw((uint64_t)(int64_t)d, tw)); }
    { double d = asD(a, from->kind); if (!(trunc(d) >= 0 && trunc(d) < ldexp(1, tw))) programFault("floating-point value beyond the range of the integer type"); return cv(maskw((uint64_t)d, tw)); }
    case O_UITOFP: case O_SITOFP: if (a.p && mk((Lit*)a.p, fw).p) { Lit* o = lalloc(tw); fpFromInt(lits(a, fw), fw, op == O_SITOFP, fmtOf(to->kind), o); return mk(o, tw); }
      if (op == O_SITOFP) { uint64_t x = concretize(a, fw, "int to float"); return fromD((double)sext(x, fw), to->kind); }
    { uint64_t x = concretize(a, fw, "int to float"); return fromD((double)x, to->kind); }
  }
  engineError("cast %d", op);
  return a;
}
static void flattenLits(const Val& v, Ty* t, std::vector<Lit>& out) {
  if (t->kind == K_AGG) { Val* p = (Val*)v.p; for (size_t i = 0; i < t->leaves.size(); i++) { const Lit* l = lits(p[i], t->leaves[i].bits); out.insert(out.end(), l, l + t->leaves[i].bits); } }
  else { const Lit* l = lits(v, t->bits); out.insert(out.end(), l, l + t->bits); }
}
static Val unflatten(const std::vector<Lit>& in, Ty* t) {
  size_t k = 0;
  auto one = [&](uint32_t w) { Lit* l = lalloc(w); memcpy(l, &in[k], w * sizeof(Lit)); k += w; return mk(l, w); };
  if (t->kind == K_AGG) { Val* p = (Val*)arenaAlloc(sizeof(Val) * (t->leaves.size() + 1)); for (size_t i = 0; i < t->leaves.size(); i++) p[i] = one(t->leaves[i].bits); return Val{0, p}; }
  return one(t->bits);
}
static Val* newAgg(size_t n) { return (Val*)arenaAlloc(sizeof(Val) * (n + 1)); }

// ---------------------------------------------------------------- intrinsics
static bool isConc(const Lit* l, uint32_t n) { for (uint32_t i = 0; i < n; i++) if (l[i] > 1) return false; return true; }
static __m128i toM(const std::vector<Lit>& l) { uint8_t b[16] = {0}; for (int i = 0; i < 128; i++) b[i / 8] |= (l[i] & 1) << (i % 8); __m128i m; memcpy(&m, b, 16); return m; }
static std::vector<Lit> fromM(__m128i m) { uint8_t b[16]; memcpy(b, &m, 16); std::vector<Lit> l(128); for (int i = 0; i < 128; i++) l[i] = b[i / 8] >> (i % 8) & 1; return l; }
#include <functional>
enum IN { I_NONE, I_MEMCPY, I_MEMSET, I_UADDO, I_USUBO, I_UMULO, I_SADDO, I_SSUBO, I_SMULO, I_CTPOP, I_CTLZ, I_CTTZ, I_BSWAP, I_FSHL, I_FSHR, I_UMAX, I_UMIN, I_SMAX, I_SMIN, I_ABS,
  I_USUBSAT, I_UADDSAT, I_EXPECT, I_OBJSIZE, I_AES, I_PCLMUL, I_LDDQU, I_SHIFTI, I_MOVMSK, I_EHTYPEID, I_STACKSAVE, I_ISCONST, I_TLS, I_TRAP, I_FABS, I_FLOOR, I_CEIL, I_SQRT, I_FMULADD, I_RDSEED, I_REDUCE, I_PSHUFB, I_BITREV, I_CPUID, I_LOG2, I_EXP2, I_TRUNCF, I_RINT, I_COPYSIGN, I_PSLLDQ, I_PTRMASK, I_PACKUS, I_MINMAXNUM, I_PTEST };
static int intrinId(const std::string& n) {
  auto p = [&](const char* s) { return n.compare(0, strlen(s), s) == 0; };
  if (p("llvm.memcpy") || p("llvm.memmove")) return I_MEMCPY;
  if (p("llvm.memset")) return I_MEMSET;
  if (p("llvm.uadd.with.overflow")) return I_UADDO; if (p("llvm.usub.with.overflow")) return I_USUBO; if (p("llvm.umul.with.overflow")) return I_UMULO;
  if (p("llvm.sadd.with.overflow")) return I_SADDO; if (p("llvm.ssub.with.overflow")) return I_SSUBO; if (p("llvm.smul.with.overflow")) return I_SMULO;
  if (p("llvm.ctpop")) return I_CTPOP; if (p("llvm.ctlz")) return I_CTLZ; if (p("llvm.cttz")) return I_CTTZ; if (p("llvm.bswap")) return I_BSWAP; if (p("llvm.bitreverse")) return I_BITREV;
  if (p("llvm.fshl")) return I_FSHL; if (p("llvm.fshr")) return I_FSHR;
  if (p("llvm.umax.")) return I_UMAX; if (p("llvm.umin.")) return I_UMIN; if (p("llvm.smax.")) return I_SMAX; if (p("llvm.smin.")) return I_SMIN; if (p("llvm.abs.")) return I_ABS;
  if (p("llvm.usub.sat")) return I_USUBSAT; if (p("llvm.uadd.sat")) return I_UADDSAT;
  if (p("llvm.expect")) return I_EXPECT; if (p("llvm.launder") || p("llvm.strip.invariant")) return I_EXPECT; if (p("llvm.objectsize")) return I_OBJSIZE;
  if (p("llvm.x86.aesni.")) return I_AES; if (p("llvm.x86.pclmulqdq")) return I_PCLMUL; if (p("llvm.x86.sse3.ldu") || p("llvm.x86.avx.ldu")) return I_LDDQU;
  if (p("llvm.x86.sse2.pslli") || p("llvm.x86.sse2.psrli") || p("llvm.x86.sse2.psrai") || p("llvm.x86.avx2.pslli") || p("llvm.x86.avx2.psrli")) return I_SHIFTI;
  if (p("llvm.x86.sse2.pmovmskb") || p("llvm.x86.sse2.movmsk") || p("llvm.x86.sse.movmsk") || p("llvm.x86.avx2.pmovmskb")) return I_MOVMSK;
  if (p("llvm.x86.ssse3.pshuf.b")) return I_PSHUFB; if (p("llvm.x86.sse41.ptest")) return I_PTEST;
  if (p("llvm.eh.typeid.for")) return I_EHTYPEID; if (p("llvm.stacksave")) return I_STACKSAVE; if (p("llvm.is.constant")) return I_ISCONST;
  if (p("llvm.threadlocal.address")) return I_TLS; if (p("llvm.trap") || p("llvm.ubsantrap") || p("llvm.debugtrap")) return I_TRAP;
  if (p("llvm.fabs")) return I_FABS; if (p("llvm.floor")) return I_FLOOR; if (p("llvm.ceil")) return I_CEIL; if (p("llvm.sqrt")) return I_SQRT; if (p("llvm.fmuladd") || p("llvm.fma")) return I_FMULADD; if (p("llvm.log2")) return I_LOG2; if (p("llvm.exp2")) return I_EXP2; if (p("llvm.trunc.f")) return I_TRUNCF; if (p("llvm.rint") || p("llvm.nearbyint") || p("llvm.roundeven")) return I_RINT; if (p("llvm.copysign")) return I_COPYSIGN; if (p("llvm.ptrmask")) return I_PTRMASK;
  if (p("llvm.maxnum") || p("llvm.minnum")) return I_MINMAXNUM;
  if (p("llvm.x86.rdseed") || p("llvm.x86.rdrand")) return I_RDSEED; if (p("llvm.vector.reduce.")) return I_REDUCE;
  if (p("asm:cpuid")) return I_CPUID;
  return I_NONE;
}
static Val mapElems(Ty* t, const std::function<Val(size_t, uint32_t)>& f) {
  if (t->kind != K_AGG) return f(0, t->bits);
  Val* p = newAgg(t->leaves.size());
  for (size_t i = 0; i < t->leaves.size(); i++) p[i] = f(i, t->leaves[i].bits);
  return Val{0, p};
}
static Val elemOf(const Val& v, Ty* t, size_t i) { return t->kind == K_AGG ? ((Val*)v.p)[i] : v; }

static int doIntrin(Frame& f, Inst& in) {
  size_t n = in.ops.size();
  Val av[16];
  for (size_t i = 0; i < n && i < 16; i++) av[i] = in.opTys[i]->kind == K_VOID ? cv(0) : get(f, in.ops[i]);
  A = av; CI = &in; R = cv(0);
  if (!in.imm) in.imm = intrinId(in.name) + 1;
  int id = in.imm - 1;
  auto el = [&](int k, size_t i) { return elemOf(av[k], in.opTys[k], i); };
  switch (id) {
    case I_MEMCPY: { uint64_t d = ARG(0), s = ARG(1), m = ARG(2); copyMem(d, s, m, true); break; }
    case I_MEMSET: { Val b = av[1]; uint64_t d = ARG(0), m = ARG(2); setMem(d, b, m); break; }
    case I_UADDO: case I_USUBO: case I_UMULO: case I_SADDO: case I_SSUBO: case I_SMULO: {
      uint32_t w = in.opTys[0]->bits;
      Val* p = newAgg(2);
      if (!av[0].p && !av[1].p && w <= 64) {
        __int128 x, y, r;
        if (id >= I_SADDO) { x = sext(av[0].c, w); y = sext(av[1].c, w); } else { x = av[0].c; y = av[1].c; }
        unsigned __int128 ux = av[0].c, uy = av[1].c, ur = 0;
        bool ov;
        if (id == I_UADDO) { ur = ux + uy; ov = (ur >> w) != 0; r = ur; }
        else if (id == I_USUBO) { r = x - y; ov = ux < uy; }
        else if (id == I_UMULO) { ur = ux * uy; ov = (ur >> w) != 0; r = (__int128)ur; }
        else { r = id == I_SADDO ? x + y : id == I_SSUBO ? x - y : x * y; ov = r != (__int128)sext(maskw((uint64_t)r, w), w); }
        p[0] = cv(maskw((uint64_t)r, w)); p[1] = cv(ov);
      } else {
        uint32_t e = (id == I_UMULO || id == I_SMULO) ? 2 * w : w + 1;
        bool sg = id >= I_SADDO;
        const Lit *x = lits(av[0], w), *y = lits(av[1], w);
        Lit *X = lalloc(e), *Y = lalloc(e), *O = lalloc(e);
        for (uint32_t i = 0; i < e; i++) { X[i] = i < w ? x[i] : sg ? x[w - 1] : 0; Y[i] = i < w ? y[i] : sg ? y[w - 1] : 0; }
        if (id == I_UADDO || id == I_SADDO) bvAdd(X, Y, 0, e, O);
        else if (id == I_USUBO || id == I_SSUBO) { Lit* nY = lalloc(e); bvNot(Y, e, nY); bvAdd(X, nY, 1, e, O); }
        else bvMul(X, Y, e, O);
        Lit ov = 0;
        for (uint32_t i = w; i < e; i++) ov = G.lor(ov, sg ? G.lxor(O[i], O[w - 1]) : O[i]);
        Lit* o1 = lalloc(1); o1[0] = ov;
        p[0] = mk(O, w); p[1] = mk(o1, 1);
      }
      R = Val{0, p};
      break;
    }
    case I_CTPOP: R = mapElems(in.ty, [&](size_t i, uint32_t w) { Val v = el(0, i); if (!v.p) return cv(__builtin_popcountll(v.c));
        Lit* acc = lalloc(w); for (uint32_t k = 0; k < w; k++) acc[k] = 0;
        for (uint32_t k = 0; k < w; k++) { Lit* z = lalloc(w); for (uint32_t j = 0; j < w; j++) z[j] = 0; Lit* o = lalloc(w); bvAdd(acc, z, ((Lit*)v.p)[k], w, o); acc = o; }
        return mk(acc, w); }); break;
    case I_CTLZ: case I_CTTZ: R = mapElems(in.ty, [&](size_t i, uint32_t w) { Val v = el(0, i);
        if (!v.p) { if (!v.c) return cv(w); return cv(id == I_CTTZ ? __builtin_ctzll(v.c) : __builtin_clzll(v.c) - (64 - w)); }
        Lit* cur = (Lit*)lits(cv(w), w);
        for (uint32_t k = 0; k < w; k++) { uint32_t bit = id == I_CTTZ ? w - 1 - k : k; Lit* o = lalloc(w); bvMux(((Lit*)v.p)[bit], lits(cv(id == I_CTTZ ? bit : w - 1 - bit), w), cur, w, o); cur = o; }
        return mk(cur, w); }); break;
    case I_BSWAP: R = mapElems(in.ty, [&](size_t i, uint32_t w) { Lit* o = lalloc(w); bswapBits(lits(el(0, i), w), w, o); return mk(o, w); }); break;
    case I_BITREV: R = mapElems(in.ty, [&](size_t i, uint32_t w) { Lit* o = lalloc(w); const Lit* l = lits(el(0, i), w); for (uint32_t k = 0; k < w; k++) o[k] = l[w - 1 - k]; return mk(o, w); }); break;
    case I_FSHL: case I_FSHR: R = mapElems(in.ty, [&](size_t i, uint32_t w) {
        uint64_t s = concretize(el(2, i), w, "funnel shift") % w; const Lit *a = lits(el(0, i), w), *b = lits(el(1, i), w); Lit* o = lalloc(w);
        for (uint32_t k = 0; k < w; k++) { if (id == I_FSHL) o[k] = k >= s ? a[k - s] : b[w - s + k]; else o[k] = k + s < w ? b[k + s] : a[k + s - w]; }
        return mk(o, w); }); break;
    case I_UMAX: case I_UMIN: case I_SMAX: case I_SMIN: R = mapElems(in.ty, [&](size_t i, uint32_t w) {
        Val a = el(0, i), b = el(1, i);
        Val c = icmp(id == I_UMAX ? 34 : id == I_UMIN ? 36 : id == I_SMAX ? 38 : 40, a, b, w);
        if (!c.p) return c.c ? a : b;
        Lit* o = lalloc(w); bvMux(((Lit*)c.p)[0], lits(a, w), lits(b, w), w, o); return mk(o, w); }); break;
    case I_MINMAXNUM: { double x = asD(av[0], in.ty->kind), y = asD(av[1], in.ty->kind); R = fromD(in.name.find("max") != std::string::npos ? fmax(x, y) : fmin(x, y), in.ty->kind); break; }
    case I_ABS: R = mapElems(in.ty, [&](size_t i, uint32_t w) { Val a = el(0, i); if (!a.p) { int64_t s = sext(a.c, w); return cv(maskw(s < 0 ? 0 - (uint64_t)s : s, w)); }
        Val ng = binop(O_SUB, cv(0), a, w, in); Lit* o = lalloc(w); bvMux(((Lit*)a.p)[w - 1], lits(ng, w), (Lit*)a.p, w, o); return mk(o, w); }); break;
    case I_USUBSAT: R = mapElems(in.ty, [&](size_t i, uint32_t w) { Val a = el(0, i), b = el(1, i); Val c = icmp(36, a, b, w), d = binop(O_SUB, a, b, w, in); if (!c.p) return c.c ? cv(0) : d; Lit* o = lalloc(w); bvMux(((Lit*)c.p)[0], lits(cv(0), w), lits(d, w), w, o); return mk(o, w); }); break;
    case I_UADDSAT: R = mapElems(in.ty, [&](size_t i, uint32_t w) { Val a = el(0, i), b = el(1, i); Val d = binop(O_ADD, a, b, w, in); Val c = icmp(36, d, a, w); if (!c.p) return c.c ? cv(maskw(~0ull, w)) : d; Lit* o = lalloc(w); bvMux(((Lit*)c.p)[0], lits(cv(maskw(~0ull, w)), w), lits(d, w), w, o); return mk(o, w); }); break;
    case I_EXPECT: R = av[0]; break;
    case I_OBJSIZE: R = cv(~0ull); break;
    case I_AES: {
      std::vector<Lit> a, b, o(128);
      flattenLits(av[0], in.opTys[0], a);
      if (n > 1 && in.opTys[1]->kind == K_AGG) flattenLits(av[1], in.opTys[1], b);
      bool conc = isConc(a.data(), 128) && isConc(b.data(), b.size());
      std::string nm = in.name.substr(15);
      int kind = nm == "aesenc" ? 0 : nm == "aesenclast" ? 1 : nm == "aesdec" ? 2 : nm == "aesdeclast" ? 3 : nm == "aesimc" ? 4 : nm == "aeskeygenassist" ? 5 : -1;
      if (kind < 0) engineError("intrinsic %s", in.name.c_str());
      if (conc) {
        __m128i x = toM(a), y = b.empty() ? x : toM(b), r;
        switch (kind) {
          case 0: r = _mm_aesenc_si128(x, y); break; case 1: r = _mm_aesenclast_si128(x, y); break;
          case 2: r = _mm_aesdec_si128(x, y); break; case 3: r = _mm_aesdeclast_si128(x, y); break;
          case 4: r = _mm_aesimc_si128(x); break;
          default: {
            Lit t[128]; aesKeygen(a.data(), av[1].c, t); o.assign(t, t + 128); r = toM(o);
          }
        }
        o = fromM(r);
      } else if (kind < 4) aesRound(kind, a.data(), b.data(), o.data());
      else if (kind == 4) aesImc(a.data(), o.data());
      else aesKeygen(a.data(), av[1].c, o.data());
      R = unflatten(o, in.ty);
      break;
    }
    case I_PCLMUL: {
      std::vector<Lit> a, b, o(128, 0);
      flattenLits(av[0], in.opTys[0], a); flattenLits(av[1], in.opTys[1], b);
      int s = av[2].c; int ao = (s & 1) * 64, bo = ((s >> 4) & 1) * 64;
      for (int i = 0; i < 64; i++) for (int j = 0; j < 64; j++) { Lit x = G.land(a[ao + i], b[bo + j]); if (x) o[i + j] = G.lxor(o[i + j], x); }
      R = unflatten(o, in.ty);
      break;
    }
    case I_LDDQU: R = loadTy(av[0], in.ty); break;
    case I_SHIFTI: {
      uint64_t s = concretize(av[1], 32, "shift");
      int op = in.name.find("psll") != std::string::npos ? O_SHL : in.name.find("psrl") != std::string::npos ? O_LSHR : O_ASHR;
      R = mapElems(in.ty, [&](size_t i, uint32_t w) { return s >= w && op != O_ASHR ? cv(0) : binop(op, el(0, i), cv(s >= w ? w - 1 : s), w, in); });
      break;
    }
    case I_MOVMSK: {
      Ty* t = in.opTys[0]; Lit* o = lalloc(32);
      for (int i = 0; i < 32; i++) o[i] = 0;
      for (uint32_t i = 0; i < t->nElem; i++) { uint32_t w = t->elem->bits; o[i] = lits(el(0, i), w)[w - 1]; }
      R = mk(o, 32); break;
    }
    case I_PSHUFB: {
      Val* p = newAgg(in.ty->nElem);
      for (uint32_t i = 0; i < in.ty->nElem; i++) { uint64_t c = concretize(el(1, i), 8, "pshufb"); p[i] = c & 0x80 ? cv(0) : el(0, (c & 15) + (i & ~15u)); }
      R = Val{0, p}; break;
    }
    case I_PTEST: {
      std::vector<Lit> a, b; flattenLits(av[0], in.opTys[0], a); flattenLits(av[1], in.opTys[1], b);
      Lit z = 1, c = 1; for (size_t i = 0; i < a.size(); i++) { z = G.land(z, G.land(a[i], b[i]) ^ 1); c = G.land(c, G.land(a[i] ^ 1, b[i]) ^ 1); }
      Lit r = in.name.find("ptestz") != std::string::npos ? z : in.name.find("ptestc") != std::string::npos ? c : G.land(z ^ 1, c ^ 1);
      Lit* o = lalloc(32); for (int i = 0; i < 32; i++) o[i] = 0; o[0] = r; R = mk(o, 32); break;
    }
    case I_EHTYPEID: R = cv(av[0].c ? av[0].c >> 32 : 1); break;
    case I_STACKSAVE: R = cv(0); break;
    case I_ISCONST: R = cv(0); break;
    case I_TLS: {
      uint64_t a = ARG(0);
      auto it = tlsGlobals.find(a);
      if (it == tlsGlobals.end()) { R = cv(a); break; }
      auto& m = T->tls;
      if (!m.count(it->second)) { specStop(); Obj& o = objs[a >> 32]; uint64_t sz = o.size; uint64_t na = newObj(sz, 3, false); memcpy(objs[na >> 32].d, objs[a >> 32].d, sz); m[it->second] = na; }
      R = cv(m[it->second]); break;
    }
    case I_TRAP: programFault("trap"); break;
    case I_FABS: if (symF(av[0], in.ty->kind)) { uint32_t w = in.ty->bits; Lit* o = lalloc(w); memcpy(o, lits(av[0], w), w * sizeof(Lit)); o[w - 1] = 0; R = mk(o, w); break; } R = fromD(fabs(asD(av[0], in.ty->kind)), in.ty->kind); break;
    case I_FLOOR: R = fromD(floor(asD(av[0], in.ty->kind)), in.ty->kind); break;
    case I_CEIL: R = fromD(ceil(asD(av[0], in.ty->kind)), in.ty->kind); break;
    case I_RINT: R = fromD(rint(asD(av[0], in.ty->kind)), in.ty->kind); break;
    case I_SQRT: R = fromD(sqrt(asD(av[0], in.ty->kind)), in.ty->kind); break;
    case I_LOG2: R = fromD(log2(asD(av[0], in.ty->kind)), in.ty->kind); break;
    case I_EXP2: R = fromD(exp2(asD(av[0], in.ty->kind)), in.ty->kind); break;
    case I_TRUNCF: R = fromD(trunc(asD(av[0], in.ty->kind)), in.ty->kind); break;
    case I_COPYSIGN: R = fromD(copysign(asD(av[0], in.ty->kind), asD(av[1], in.ty->kind)), in.ty->kind); break;
    case I_FMULADD: if (symF(av[0], in.ty->kind) || symF(av[1], in.ty->kind) || symF(av[2], in.ty->kind)) { R = fbin(O_FADD, fbin(O_FMUL, av[0], av[1], in.ty->kind), av[2], in.ty->kind); break; } R = fromD(asD(av[0], in.ty->kind) * asD(av[1], in.ty->kind) + asD(av[2], in.ty->kind), in.ty->kind); break;
    case I_PTRMASK: R = binop(O_AND, av[0], av[1], 64, in); break;
    case I_RDSEED: {
      Val* p = newAgg(2);
      uint32_t w = in.ty->leaves[0].bits;
      p[0] = symValue("rdseed", w, w);
      p[1] = cv(1);
      R = Val{0, p}; break;
    }
    case I_CPUID: { Val* p = newAgg(4); for (int i = 0; i < 4; i++) p[i] = symValue("cpuid", 32, 32); R = Val{0, p}; break; }
    case I_REDUCE: {
      Ty* t = in.opTys[n - 1]; uint32_t w = t->elem->bits;
      int op = in.name.find(".add") != std::string::npos ? O_ADD : in.name.find(".xor") != std::string::npos ? O_XOR : in.name.find(".or") != std::string::npos ? O_OR : in.name.find(".and") != std::string::npos ? O_AND : in.name.find(".mul") != std::string::npos ? O_MUL : -1;
      if (op < 0) engineError("intrinsic %s", in.name.c_str());
      Val r = el(n - 1, 0); for (uint32_t i = 1; i < t->nElem; i++) r = binop(op, r, el(n - 1, i), w, in);
      R = r; break;
    }
    default: engineError("unsupported intrinsic %s", in.name.c_str());
  }
  if (in.dst >= 0) f.regs[in.dst] = R;
  return B_DONE;
}
static void run();

// ---------------------------------------------------------------- merging of branch sides
// A branch on a symbolic condition runs its sides one after the other, each under its own condition and on its own copy
// of the state, up to the immediate post-dominator; the two results are then joined with conditional expressions. A
// side that would need a case split, ends the path, allocates surviving memory or leaves the function is not merged:
// everything is rolled back and the path is split instead.
static const uint64_t specLimit = 400000;
struct FlowInfo { std::vector<int32_t> join; std::vector<std::vector<bool>> liveIn; std::vector<Ty*> regTy; };
static std::unordered_map<Fn*, FlowInfo*> flows;
static FlowInfo* flowOf(Fn* fn) {
  auto it = flows.find(fn);
  if (it != flows.end()) return it->second;
  FlowInfo* F = new FlowInfo;
  flows[fn] = F;
  size_t n = fn->blocks.size();
  std::vector<std::vector<int32_t>> norm(n), all(n);
  std::vector<bool> isRet(n, false);
  F->regTy.assign(fn->nregs, nullptr);
  for (size_t i = 0; i < fn->params.size() && i < F->regTy.size(); i++) F->regTy[i] = fn->params[i];
  for (size_t b = 0; b < n; b++)
    for (auto& in : fn->blocks[b].insts) {
      if (in.dst >= 0) F->regTy[in.dst] = in.ty;
      auto add = [&](std::vector<std::vector<int32_t>>& v, int32_t t) { if (t >= 0) v[b].push_back(t); };
      switch (in.op) {
        case O_BR: add(norm, in.t0); break;
        case O_CBR: add(norm, in.t0); add(norm, in.t1); break;
        case O_SWITCH: add(norm, in.t0); for (int32_t t : in.targets) add(norm, t); break;
        case O_INVOKE: add(norm, in.t0); add(all, in.t1); break;
        case O_INTRIN: if (in.sub == 1 && in.t0 >= 0) { add(norm, in.t0); add(all, in.t1); } break;
        case O_RET: isRet[b] = true; break;
      }
    }
  for (auto& b : fn->blocks) for (auto& p : b.in) for (auto& m : p.second) F->regTy[m.dst] = m.ty;
  // post-dominators over the normal edges; blocks that cannot reach a return are left out
  std::vector<std::vector<int32_t>> pred(n);
  for (size_t b = 0; b < n; b++) for (int32_t t : norm[b]) pred[t].push_back(b);
  std::vector<bool> canRet(n, false);
  std::vector<int32_t> wl;
  for (size_t b = 0; b < n; b++) if (isRet[b]) { canRet[b] = true; wl.push_back(b); }
  while (!wl.empty()) { int32_t b = wl.back(); wl.pop_back(); for (int32_t p : pred[b]) if (!canRet[p]) { canRet[p] = true; wl.push_back(p); } }
  std::vector<std::vector<bool>> pd(n, std::vector<bool>(n, true));
  for (size_t b = 0; b < n; b++) if (isRet[b]) { pd[b].assign(n, false); pd[b][b] = true; }
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t b = n; b-- > 0;) {
      if (!canRet[b] || isRet[b]) continue;
      std::vector<bool> x(n, true);
      for (int32_t t : norm[b]) if (canRet[t]) for (size_t k = 0; k < n; k++) if (!pd[t][k]) x[k] = false;
      x[b] = true;
      if (x != pd[b]) { pd[b] = x; ch = true; }
    }
  }
  F->join.assign(n, -1);
  for (size_t b = 0; b < n; b++) {
    if (!canRet[b]) continue;
    // immediate: the strict post-dominator with the largest set of its own
    size_t best = 0;
    for (size_t k = 0; k < n; k++) if (k != b && pd[b][k]) {
      size_t c = 0;
      for (size_t j = 0; j < n; j++) c += pd[k][j];
      if (c > best) { best = c; F->join[b] = k; }
    }
  }
  // liveness over all edges
  for (size_t b = 0; b < n; b++) for (int32_t t : norm[b]) all[b].push_back(t);
  F->liveIn.assign(n, std::vector<bool>(fn->nregs, false));
  ch = true;
  while (ch) {
    ch = false;
    for (size_t b = n; b-- > 0;) {
      std::vector<bool> l(fn->nregs, false);
      for (int32_t t : all[b]) {
        std::vector<bool> li = F->liveIn[t];
        for (auto& p : fn->blocks[t].in) for (auto& m : p.second) li[m.dst] = false;
        for (auto& p : fn->blocks[t].in) if (p.first == (int32_t)b) for (auto& m : p.second) if (m.src >= 0) li[m.src] = true;
        for (int32_t k = 0; k < fn->nregs; k++) if (li[k]) l[k] = true;
      }
      auto& is = fn->blocks[b].insts;
      for (size_t i = is.size(); i-- > 0;) {
        Inst& in = is[i];
        if (in.dst >= 0) l[in.dst] = false;
        auto use = [&](int32_t r) { if (r >= 0 && r < fn->nregs) l[r] = true; };
        use(in.a); use(in.b); use(in.c);
        for (int32_t r : in.ops) use(r);
        for (auto& g : in.gep) use(g.idx);
      }
      if (l != F->liveIn[b]) { F->liveIn[b] = l; ch = true; }
    }
  }
  return F;
}
static void copyObj(const Obj& o, ObjCopy& c) {
  c.d.assign(o.d, o.d + o.size);
  c.hasFlag = o.flag; c.hasSh = o.sh;
  if (o.flag) c.flag.assign(o.flag, o.flag + o.size);
  if (o.sh) c.sh.assign(o.sh, o.sh + o.size * 8);
}
static void restoreObj(Obj& o, const ObjCopy& c) {
  memcpy(o.d, c.d.data(), o.size);
  if (c.hasFlag) { ensureFlags(o); memcpy(o.flag, c.flag.data(), o.size); }
  else if (o.flag) memset(o.flag, 0, o.size);
  if (c.hasSh) { ensureShadow(o); memcpy(o.sh, c.sh.data(), o.size * 8 * sizeof(Lit)); }
}
static void specSave(Obj& o, uint64_t id) {
  Side* top = specs.back();
  if (o.stamp == top->id || id >= top->base) return;
  o.stamp = top->id;
  std::shared_ptr<ObjCopy> c;
  for (size_t k = specs.size(); k-- > 0;) {
    Side* s = specs[k];
    if (id >= s->base || s->saved.count(id)) break; // then the sides around it created it or hold a copy, too
    if (!c) {
      if (o.size > (4 << 20)) throw SpecAbort();
      c = std::make_shared<ObjCopy>();
      copyObj(o, *c);
    }
    s->saved[id] = c;
  }
}
static bool ptrLike(uint64_t v) { uint64_t id = v >> 32; return id && id < objs.size() && (v & 0xffffffff) >= BIAS && (v & 0xffffffff) - BIAS <= objs[id].size; }
static Val mergeVal(Lit c, const Val& a, const Val& b, Ty* t) {
  if (!t || t->kind == K_VOID) return b;
  if (t->kind == K_AGG) {
    if (a.p == b.p || !a.p || !b.p) return b.p ? b : a;
    Val* o = (Val*)arenaAlloc(sizeof(Val) * (t->leaves.size() + 1));
    for (size_t i = 0; i < t->leaves.size(); i++) {
      const Val &x = ((Val*)a.p)[i], &y = ((Val*)b.p)[i];
      uint32_t w = t->leaves[i].bits;
      if (x.p == y.p && (x.p || x.c == y.c)) { o[i] = y; continue; }
      if (t->leaves[i].kind == K_F32 || t->leaves[i].kind == K_F64) throw SpecAbort();
      if (!x.p && !y.p && w == 64 && ptrLike(x.c) && ptrLike(y.c)) throw SpecAbort();
      Lit* l = lalloc(w);
      bvMux(c, lits(x, w), lits(y, w), w, l);
      o[i] = mk(l, w);
    }
    return Val{0, o};
  }
  if (a.p == b.p && (a.p || a.c == b.c)) return b;
  if (t->kind == K_F32 || t->kind == K_F64 || t->kind == K_OTHERFP) throw SpecAbort();
  if (t->kind == K_PTR || (t->bits == 64 && !a.p && !b.p && ptrLike(a.c) && ptrLike(b.c))) throw SpecAbort();
  Lit* l = lalloc(t->bits);
  bvMux(c, lits(a, t->bits), lits(b, t->bits), t->bits, l);
  return mk(l, t->bits);
}
struct SideResult {
  std::vector<Val> regs;
  std::map<uint32_t, std::shared_ptr<ObjCopy>> mem; // contents after the side of every object it wrote
};
static void rollback(Side& s) {
  for (auto& p : s.saved) restoreObj(objs[p.first], *p.second);
  for (auto& p : s.saved) objs[p.first].stamp = 0;
}
// Runs the block `target` under condition c up to the join. Memory and registers are as before afterwards.
static void runSide(Fn* fn, Lit c, int32_t target, int32_t join, SideResult& out) {
  Frame& f0 = T->st.back();
  std::vector<Val> regs0(f0.regs, f0.regs + fn->nregs);
  int32_t blk0 = f0.blk, ip0 = f0.ip;
  Side s;
  s.id = ++sideSeq; s.base = objs.size(); s.depth = T->st.size(); s.thread = T; s.join = join;
  std::vector<Lit> pc0 = PS.pc; bool contra0 = PS.contradictory;
  std::vector<Model*> models0 = PS.models;
  std::vector<Model*> ms;
  for (Model* m : PS.models) if (m->eval(c)) ms.push_back(m);
  PS.models = ms;
  PS.keepModels++;
  auto mo0 = mutexOwner;
  uint64_t live0 = liveHeap, caught0 = T->caught.size();
  Thread* t0 = T;
  size_t aci = T->arena.ci, aoff = T->arena.off;
  specs.push_back(&s);
  bool failed = false;
  try {
    PS.add(c);
    gotoBlock(f0, target);
    run();
    for (auto& p : mutexOwner) { auto it = mo0.find(p.first); if ((it == mo0.end() ? 0 : it->second) != p.second) throw SpecAbort(); }
    if (T->caught.size() != caught0 || liveHeap != live0) throw SpecAbort();
    for (size_t i = s.base; i < objs.size(); i++) if (objs[i].alive) throw SpecAbort();
    Frame& f = T->st.back();
    out.regs.assign(f.regs, f.regs + fn->nregs);
    for (auto& p : s.saved) { auto k = std::make_shared<ObjCopy>(); copyObj(objs[p.first], *k); out.mem[p.first] = k; }
  } catch (SpecAbort&) { failed = true; }
  if (failed) {
    specArrived = false;
    while (T->st.size() > s.depth) { Side* keep = specs.back(); (void)keep; popFrame(); }
    for (size_t i = s.base; i < objs.size(); i++) if (objs[i].alive) { Obj& o = objs[i]; o.alive = false; free(o.d); free(o.flag); free(o.sh); o.d = o.flag = nullptr; o.sh = nullptr; }
    liveHeap = live0;
    mutexOwner = mo0;
    T->caught.resize(caught0);
    T->arena.ci = aci; T->arena.off = aoff;
  }
  (void)t0;
  rollback(s);
  specs.pop_back();
  Frame& f = T->st.back();
  memcpy(f.regs, regs0.data(), sizeof(Val) * fn->nregs);
  f.blk = blk0; f.ip = ip0;
  PS.keepModels--;
  PS.pc = pc0; PS.resign(); PS.contradictory = contra0;
  for (Model* m : PS.models) { bool have = false; for (Model* k : models0) have |= k == m; if (!have && models0.size() < 24) models0.push_back(m); }
  PS.models = models0;
  if (failed) throw SpecAbort();
}
static void mergeMem(Lit c, std::map<uint32_t, std::shared_ptr<ObjCopy>>& a, std::map<uint32_t, std::shared_ptr<ObjCopy>>& b) {
  // into b: state a where c holds, state b otherwise
  for (auto& p : a) if (!b.count(p.first)) { auto k = std::make_shared<ObjCopy>(); copyObj(objs[p.first], *k); b[p.first] = k; }
  for (auto& p : b) {
    ObjCopy cur; const ObjCopy* x;
    auto it = a.find(p.first);
    if (it == a.end()) { copyObj(objs[p.first], cur); x = &cur; } else x = it->second.get();
    ObjCopy& y = *p.second;
    size_t n = y.d.size();
    for (size_t i = 0; i < n; i++) {
      int fx = x->hasFlag ? x->flag[i] : 0, fy = y.hasFlag ? y.flag[i] : 0;
      if (fx == fy && fx != 1 && (fx == 2 || x->d[i] == y.d[i])) continue;
      if (fx == 1 && fy == 1 && !memcmp(&x->sh[i * 8], &y.sh[i * 8], 8 * sizeof(Lit))) continue;
      if ((i & 7) == 0 && i + 8 <= n) { // two different pointers are not merged
        uint64_t u, v; memcpy(&u, &x->d[i], 8); memcpy(&v, &y.d[i], 8);
        bool conc = true;
        for (int k = 0; k < 8; k++) if ((x->hasFlag && x->flag[i + k]) || (y.hasFlag && y.flag[i + k])) conc = false;
        if (conc && u != v && ptrLike(u) && ptrLike(v)) throw SpecAbort();
      }
      Lit lx[8], ly[8], lo[8];
      for (int k = 0; k < 8; k++) {
        lx[k] = fx == 0 ? (x->d[i] >> k) & 1 : fx == 1 ? x->sh[i * 8 + k] : G.newVar(true);
        ly[k] = fy == 0 ? (y.d[i] >> k) & 1 : fy == 1 ? y.sh[i * 8 + k] : G.newVar(true);
      }
      bool sym = false; uint8_t cc = 0;
      for (int k = 0; k < 8; k++) { lo[k] = lx[k] == ly[k] ? lx[k] : G.mux(c, lx[k], ly[k]); if (lo[k] > 1) sym = true; else cc |= lo[k] << k; }
      if (!y.hasFlag) { y.hasFlag = true; y.flag.assign(n, 0); }
      if (sym) {
        if (!y.hasSh) { y.hasSh = true; y.sh.assign(n * 8, 0); }
        memcpy(&y.sh[i * 8], lo, sizeof lo);
        y.flag[i] = 1;
      } else { y.d[i] = cc; y.flag[i] = 0; }
    }
  }
}
static bool mergeSides(Inst& in, std::vector<std::pair<Lit, int32_t>>& sides) {
  Fn* fn = T->st.back().fn;
  if (in.mfail >= 3 && in.mfail > in.mok) return false;
  FlowInfo* F = flowOf(fn);
  int32_t b = T->st.back().blk, j = F->join[b];
  if (j < 0) { in.mfail = 1000; return false; }
  if (specs.size() > 60) throw SpecAbort();
  if (specs.empty()) specInstrs = 0;
  try {
    SideResult acc;
    for (size_t i = 0; i < sides.size(); i++) {
      SideResult r;
      runSide(fn, sides[i].first, sides[i].second, j, r);
      if (i == 0) { acc.regs.swap(r.regs); acc.mem.swap(r.mem); continue; }
      Lit c = sides[i].first;
      for (int32_t k = 0; k < fn->nregs; k++) if (F->liveIn[j][k]) acc.regs[k] = mergeVal(c, r.regs[k], acc.regs[k], F->regTy[k]);
      mergeMem(c, r.mem, acc.mem);
    }
    for (auto& p : acc.mem) {
      if (!specs.empty()) specSave(objs[p.first], p.first);
      restoreObj(objs[p.first], *p.second);
    }
    Frame& f = T->st.back();
    for (int32_t k = 0; k < fn->nregs; k++) if (F->liveIn[j][k]) f.regs[k] = acc.regs[k];
    f.blk = j; f.ip = 0;
    if (!specs.empty() && j == specs.back()->join && T->st.size() == specs.back()->depth) specArrived = true;
    in.mok++;
    SH->merges++;
    return true;
  } catch (SpecAbort&) {
    in.mfail++;
    specArrived = false;
    if (!specs.empty()) throw;
    return false;
  }
}
static bool tryMerge(Inst& in, Lit c) {
  if (!mergeOn || exploring) return false;
  if (in.mfail >= 3 && in.mfail > in.mok) { return false; }
  for (Lit x : PS.pc) if (x == c || x == (c ^ 1)) return false;
  if (PS.query(c, nullptr, g_queryBudget) == UNSAT) { PS.add(c ^ 1); return false; }
  if (PS.query(c ^ 1, nullptr, g_queryBudget) == UNSAT) { PS.add(c); return false; }
  std::vector<std::pair<Lit, int32_t>> s{{c ^ 1, in.t1}, {c, in.t0}};
  return mergeSides(in, s);
}
static bool tryMergeSwitch(Inst& in, const Val& v) {
  if (!mergeOn || exploring || in.imms.size() > 64) return false;
  std::vector<std::pair<Lit, int32_t>> s;
  Lit rest = 1;
  uint32_t w = in.ty2->bits;
  for (size_t i = 0; i < in.imms.size(); i++) {
    Lit eq = bvEq((Lit*)v.p, lits(cv(in.imms[i]), w), w);
    rest = G.land(rest, eq ^ 1);
    if (eq == 0 || PS.query(eq, nullptr, g_queryBudget) == UNSAT) continue;
    s.push_back({eq, in.targets[i]});
  }
  if (PS.query(rest, nullptr, g_queryBudget) != UNSAT) s.push_back({rest, in.t0});
  if (s.size() < 2) return false;
  return mergeSides(in, s);
}

// ---------------------------------------------------------------- main loop
static void run() {
  std::vector<Val> rvs; std::vector<Lit> rls; std::vector<int64_t> rlo;
  for (;;) {
    if (__builtin_expect(specArrived, 0)) { specArrived = false; return; }
    if (__builtin_expect(!specs.empty(), 0) && ++specInstrs > specLimit) throw SpecAbort();
    Frame& f = T->st.back();
    Inst& in = f.fn->blocks[f.blk].insts[f.ip];
    if ((++myInstrs & 0xfffff) == 0) { SH->instrs += myInstrs; myInstrs = 0; checkLimits(); }
    switch (in.op) {
      case O_ADD: case O_SUB: case O_AND: case O_OR: case O_XOR: case O_SHL: case O_LSHR: case O_ASHR: case O_MUL: case O_UDIV: case O_SDIV: case O_UREM: case O_SREM:
        if (in.ty->kind == K_AGG) {
          Val a = get(f, in.a), b = get(f, in.b);
          Val* p = newAgg(in.ty->leaves.size());
          for (size_t i = 0; i < in.ty->leaves.size(); i++) p[i] = binop(in.op, ((Val*)a.p)[i], ((Val*)b.p)[i], in.ty->leaves[i].bits, in);
          f.regs[in.dst] = Val{0, p};
        } else f.regs[in.dst] = binop(in.op, get(f, in.a), get(f, in.b), in.ty->bits, in);
        f.ip++; break;
      case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM:
        if (in.ty->kind == K_AGG) {
          Val a = get(f, in.a), b = get(f, in.b);
          Val* p = newAgg(in.ty->leaves.size());
          for (size_t i = 0; i < in.ty->leaves.size(); i++) p[i] = fbin(in.op, ((Val*)a.p)[i], ((Val*)b.p)[i], in.ty->elem->kind);
          f.regs[in.dst] = Val{0, p};
        } else f.regs[in.dst] = fbin(in.op, get(f, in.a), get(f, in.b), in.ty->kind);
        f.ip++; break;
      case O_FNEG: if (symF(get(f, in.a), in.ty->kind)) { uint32_t w = in.ty->bits; Val v = get(f, in.a); Lit* o = lalloc(w); memcpy(o, lits(v, w), w * sizeof(Lit)); o[w - 1] ^= 1; f.regs[in.dst] = mk(o, w); f.ip++; break; } f.regs[in.dst] = fromD(-asD(get(f, in.a), in.ty->kind), in.ty->kind); f.ip++; break;
      case O_ICMP:
        if (in.ty2->kind == K_AGG) {
          Val a = get(f, in.a), b = get(f, in.b);
          f.regs[in.dst] = mapElems(in.ty, [&](size_t i, uint32_t) { return icmp(in.sub, ((Val*)a.p)[i], ((Val*)b.p)[i], in.ty2->leaves[i].bits); });
        } else f.regs[in.dst] = icmp(in.sub, get(f, in.a), get(f, in.b), in.ty2->bits);
        f.ip++; break;
      case O_FCMP: f.regs[in.dst] = fcmp(in.sub, get(f, in.a), get(f, in.b), in.ty2->kind); f.ip++; break;
      case O_SELECT: {
        Val c = get(f, in.a), t = get(f, in.b), e = get(f, in.c);
        if (in.ty2->kind == K_AGG) {
          f.regs[in.dst] = mapElems(in.ty, [&](size_t i, uint32_t w) { Val ci = ((Val*)c.p)[i], ti = ((Val*)t.p)[i], ei = ((Val*)e.p)[i]; if (!ci.p) return ci.c ? ti : ei; Lit* o = lalloc(w); bvMux(((Lit*)ci.p)[0], lits(ti, w), lits(ei, w), w, o); return mk(o, w); });
        } else if (!c.p) f.regs[in.dst] = c.c ? t : e;
        else if (in.ty->kind == K_AGG) {
          f.regs[in.dst] = mapElems(in.ty, [&](size_t i, uint32_t w) { Lit* o = lalloc(w); bvMux(((Lit*)c.p)[0], lits(((Val*)t.p)[i], w), lits(((Val*)e.p)[i], w), w, o); return mk(o, w); });
        } else { uint32_t w = in.ty->bits; Lit* o = lalloc(w); bvMux(((Lit*)c.p)[0], lits(t, w), lits(e, w), w, o); f.regs[in.dst] = mk(o, w); }
        f.ip++; break;
      }
      case O_ITRUNC: case O_ZEXT: case O_SEXT: case O_NOPCAST: case O_FPEXT: case O_FPTRUNC: case O_FPTOUI: case O_FPTOSI: case O_UITOFP: case O_SITOFP:
        if (in.ty->kind == K_AGG) {
          Val a = get(f, in.a);
          f.regs[in.dst] = in.op == O_NOPCAST ? a : mapElems(in.ty, [&](size_t i, uint32_t) { return castop(in.op, ((Val*)a.p)[i], in.ty2->elem, in.ty->elem); });
        } else f.regs[in.dst] = castop(in.op, get(f, in.a), in.ty2, in.ty);
        f.ip++; break;
      case O_BITCAST: { std::vector<Lit> l; flattenLits(get(f, in.a), in.ty2, l); f.regs[in.dst] = unflatten(l, in.ty); f.ip++; break; }
      case O_FREEZE: f.regs[in.dst] = get(f, in.a); f.ip++; break;
      case O_ALLOCA: { if (!specs.empty() && T->st.size() <= specs.back()->depth) specStop(); uint64_t n = concretize(get(f, in.a), in.ty2->bits, "alloca"); f.regs[in.dst] = cv(allocStack(f, n * in.imm)); f.ip++; break; }
      case O_LOAD: { Val v = loadTy(get(f, in.a), in.ty); T->st.back().regs[in.dst] = v; T->st.back().ip++; break; }
      case O_STORE: storeTy(get(f, in.a), get(f, in.b), in.ty2); f.ip++; break;
      case O_GEP: {
        Val base = get(f, in.a);
        if (base.p && in.ty->kind == K_AGG) engineError("vector gep");
        uint64_t off = in.imm;
        bool symb = base.p;
        for (auto& s : in.gep) { Val v = get(f, s.idx); if (v.p) symb = true; else off += sext(v.c, s.idxBits) * s.scale; }
        if (!symb) { f.regs[in.dst] = cv(base.c + off); f.ip++; break; }
        Val acc = binop(O_ADD, base, cv(off), 64, in);
        for (auto& s : in.gep) {
          Val v = get(f, s.idx);
          if (!v.p) continue;
          const Lit* l = (Lit*)v.p; Lit* e = lalloc(64);
          for (uint32_t i = 0; i < 64; i++) e[i] = i < s.idxBits ? l[i] : l[s.idxBits - 1];
          acc = binop(O_ADD, acc, binop(O_MUL, mk(e, 64), cv(s.scale), 64, in), 64, in);
        }
        f.regs[in.dst] = acc; f.ip++; break;
      }
      case O_EXTRACTVALUE: {
        Val* p = (Val*)get(f, in.a).p;
        if (in.ty->kind == K_AGG) { Val* o = newAgg(in.ty->leaves.size()); for (size_t i = 0; i < in.ty->leaves.size(); i++) o[i] = p[in.imm + i]; f.regs[in.dst] = Val{0, o}; }
        else f.regs[in.dst] = p[in.imm];
        f.ip++; break;
      }
      case O_INSERTVALUE: {
        Val* p = (Val*)get(f, in.a).p; Val v = get(f, in.b);
        Val* o = newAgg(in.ty->leaves.size());
        memcpy(o, p, sizeof(Val) * in.ty->leaves.size());
        if (in.ty2->kind == K_AGG) for (size_t i = 0; i < in.ty2->leaves.size(); i++) o[in.imm + i] = ((Val*)v.p)[i]; else o[in.imm] = v;
        f.regs[in.dst] = Val{0, o}; f.ip++; break;
      }
      case O_EXTRACTELT: { uint64_t k = concretize(get(f, in.b), 64, "vector index"); f.regs[in.dst] = ((Val*)get(f, in.a).p)[k]; f.ip++; break; }
      case O_INSERTELT: {
        uint64_t k = concretize(get(f, in.c), 64, "vector index");
        Val* o = newAgg(in.ty->leaves.size()); memcpy(o, get(f, in.a).p, sizeof(Val) * in.ty->leaves.size()); o[k] = get(f, in.b);
        f.regs[in.dst] = Val{0, o}; f.ip++; break;
      }
      case O_SHUFFLE: {
        Val *p = (Val*)get(f, in.a).p, *q = (Val*)get(f, in.b).p; uint32_t n = in.ty2->nElem;
        Val* o = newAgg(in.imms.size());
        for (size_t i = 0; i < in.imms.size(); i++) { int64_t m = (int64_t)in.imms[i]; o[i] = m < 0 ? cvw(0, in.ty->elem->bits) : (uint32_t)m < n ? p[m] : q[m - n]; }
        f.regs[in.dst] = Val{0, o}; f.ip++; break;
      }
      case O_RMW: {
        Val a = get(f, in.a), b = get(f, in.b);
        Val old = loadTy(a, in.ty2);
        static const int ops[] = {-1, O_ADD, O_SUB, O_AND, O_OR, O_XOR};
        if (in.sub > 5) engineError("atomicrmw");
        Val nv = in.sub == 0 ? b : binop(ops[in.sub], old, b, in.ty2->bits, in);
        storeTy(a, nv, in.ty2);
        f.regs[in.dst] = old; f.ip++; break;
      }
      case O_CMPXCHG: {
        Val a = get(f, in.a), c = get(f, in.b), nv = get(f, in.c);
        Val old = loadTy(a, in.ty2);
        Val eq = icmp(32, old, c, in.ty2->bits);
        bool e = eq.p ? decide(((Lit*)eq.p)[0]) : eq.c;
        if (e) storeTy(a, nv, in.ty2);
        Val* p = newAgg(2); p[0] = old; p[1] = cv(e);
        f.regs[in.dst] = Val{0, p}; f.ip++; break;
      }
      case O_FENCE: f.ip++; break;
      case O_BR: gotoBlock(f, in.t0); break;
      case O_CBR: {
        Val c = get(f, in.a);
        if (c.p && ((Lit*)c.p)[0] > 1 && tryMerge(in, ((Lit*)c.p)[0])) break;
        bool t = c.p ? decide(((Lit*)c.p)[0]) : c.c;
        gotoBlock(T->st.back(), t ? in.t0 : in.t1);
        break;
      }
      case O_SWITCH: {
        Val c = get(f, in.a);
        int32_t t = in.t0;
        if (!c.p) { for (size_t i = 0; i < in.imms.size(); i++) if (in.imms[i] == c.c) { t = in.targets[i]; break; } }
        else {
          if (tryMergeSwitch(in, c)) break;
          for (size_t i = 0; i < in.imms.size(); i++) { Lit eq = bvEq((Lit*)c.p, lits(cv(in.imms[i]), in.ty2->bits), in.ty2->bits); if (decide(eq)) { t = in.targets[i]; break; } }
        }
        gotoBlock(f, t);
        break;
      }
      case O_RET: {
        rvs.clear(); rls.clear(); rlo.clear();
        if (in.sub) deepCopyIn(get(f, in.a), in.ty2, rvs, rls, rlo);
        Ty* rt = in.ty2; bool hasv = in.sub;
        Inst* call = f.call;
        popFrame();
        if (T->st.empty()) {
          T->stat = T_DONE;
          if (T->id == 0) endPath();
          reschedule();
          break;
        }
        Frame& g = T->st.back();
        if (call) {
          if (hasv && call->dst >= 0) g.regs[call->dst] = deepCopyOut(rt, rvs, rls, rlo);
          if (call->op == O_INVOKE) gotoBlock(g, call->t0); else g.ip++;
        }
        break;
      }
      case O_UNREACHABLE: programFault("unreachable code executed"); break;
      case O_RESUME: { Val v = get(f, in.a); uint64_t ex = ((Val*)v.p)[0].c; unwind(ex); break; }
      case O_LANDINGPAD: f.ip++; break;
      case O_INTRIN: {
        int32_t t0 = in.t0;
        bool inv = in.sub == 1 && t0 >= 0;
        doIntrin(f, in);
        if (inv) gotoBlock(T->st.back(), t0); else T->st.back().ip++;
        break;
      }
      case O_CALL: case O_INVOKE: {
        Fn* c = in.callee;
        if (!c) {
          uint64_t a = concretize(get(f, in.c), 64, "function pointer");
          uint64_t id = a >> 32;
          if (!id || id >= objs.size() || objs[id].kind != 5) programFault("call through an invalid function pointer");
          c = fns[objs[id].aux];
        }
        size_t n = in.ops.size();
        Val buf[32]; std::vector<Val> big; Val* args = buf;
        if (n > 32) { big.resize(n); args = big.data(); }
        for (size_t i = 0; i < n; i++) args[i] = in.opTys[i]->kind == K_VOID ? cv(0) : get(f, in.ops[i]);
        if (c->intrin == 0) {
          c->intrin = 1;
          auto it = builtins.find(c->name);
          if (it != builtins.end()) { c->builtin = (Builtin)(void*)it->second; c->intrin = 2; }
        }
        if (c->intrin == 2) {
          A = args; CI = &in; R = cv(0);
          Thread* me = T;
          int r = ((BF)(void*)c->builtin)();
          if (r == B_DONE) {
            Frame& g = me->st.back();
            if (in.dst >= 0) g.regs[in.dst] = in.ty->kind == K_INT && in.ty->bits < 64 && !R.p ? cv(maskw(R.c, in.ty->bits)) : R;
            if (in.op == O_INVOKE) gotoBlock(g, in.t0); else g.ip++;
          }
          break;
        }
        if (!c->defined) { engineError("call to unmodelled external function %s", c->name.c_str()); }
        pushFrame(c, args, n, &in);
        break;
      }
      default: engineError("unsupported instruction: op %d %s", in.op, in.name.c_str());
    }
  }
}

static std::string jsonEsc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') o += "\\n"; else if ((unsigned char)c >= 32) o += c; } return o; }
static std::string gEntry;
static void finishMain() {
  FILE* f = fopen((outDir + "/result.json").c_str(), "w");
  fprintf(f, "{\"entry\":\"%s\",\"paths\":%llu,\"forks\":%llu,\"merges\":%llu,\"assumes_killed\":%llu,\"instructions\":%llu,\n", gEntry.c_str(), (unsigned long long)SH->paths, (unsigned long long)SH->forks, (unsigned long long)SH->merges, (unsigned long long)SH->assumesKilled, (unsigned long long)SH->instrs);
  fprintf(f, "\"assertions\":%llu,\"assertions_by_rewriting\":%llu,\"assertions_by_solver\":%llu,\"assertions_violated\":%llu,\"assertions_unknown\":%llu,\n", (unsigned long long)SH->checks, (unsigned long long)SH->checksConst, (unsigned long long)SH->checksUnsat, (unsigned long long)SH->checksViol, (unsigned long long)SH->unknownChecks);
  fprintf(f, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"sat_by_pattern\":%llu,\"sat_by_model\":%llu,\"external\":%llu,\"swept\":%llu,\"solver_s\":%.3f,\"max_nodes\":%llu,\"sym_bits\":%llu,\"sched_points\":%llu,\n", (unsigned long long)SH->queries, (unsigned long long)SH->qsat, (unsigned long long)SH->qunsat, (unsigned long long)SH->qunknown, (unsigned long long)SH->qsig, (unsigned long long)SH->qmodel, (unsigned long long)SH->qext, (unsigned long long)SH->qswept, SH->solverUs / 1e6, (unsigned long long)SH->maxNodes, (unsigned long long)SH->symVars, (unsigned long long)SH->schedPoints);
  fprintf(f, "\"violations\":%llu,\"errors\":%llu,\"timeout\":%d,\"wall_s\":%.2f,\n\"reach\":[", (unsigned long long)SH->violations, (unsigned long long)SH->errors, (int)SH->timeout, now() - T0);
  for (uint32_t i = 0; i < SH->nreach && i < 64; i++) fprintf(f, "%s\"%s\"", i ? "," : "", jsonEsc(SH->reachName[i]).c_str());
  fprintf(f, "],\n\"functions\":[");
  bool first = true;
  for (Fn* x : fns) if (x->id < 65536 && SH->cov[x->id]) { fprintf(f, "%s[\"%s\",\"%s\"]", first ? "" : ",\n", jsonEsc(x->name).c_str(), jsonEsc(x->src).c_str()); first = false; }
  fprintf(f, "]}\n");
  fclose(f);
  _exit(0);
}

int main(int argc, char** argv) {
  std::vector<std::string> bcs, libs;
  std::string entry = "vf_main";
  double limit = 600;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&] { return argv[++i]; };
    if (a == "--entry") entry = val();
    else if (a == "--out") outDir = val();
    else if (a == "--time") limit = atof(val());
    else if (a == "--procs") maxProcs = atoi(val());
    else if (a == "--query-time") g_queryBudget = atof(val());
    else if (a == "--max-viol") maxViol = atoi(val());
    else if (a == "-v") verbose = true;
    else if (a == "--replay") {
      replaying = true;
      FILE* f = fopen(val(), "r");
      if (!f) return 3;
      char line[4096], nm[1024]; unsigned ix, bi; unsigned long long v;
      while (fgets(line, sizeof line, f)) {
        if (!strncmp(line, "STACK", 5)) break;
        if (sscanf(line, "INPUT %1000s %u %u %llx", nm, &ix, &bi, &v) == 4) replayIn[nm].push_back(v);
      }
      fclose(f);
    }
    else if (a == "--lib") libs.push_back(val());
    else bcs.push_back(argv[i]);
  }
  if (bcs.empty() || outDir.empty()) { fprintf(stderr, "usage: vsym --out DIR [--entry F] file.bc\n"); return 3; }
  T0 = now();
  deadline = T0 + limit;
  gEntry = entry;
  g_tmpdir = outDir;
  aesSelfTest();
  SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)SH, 0, sizeof *SH);
  SH->running = 1;
  objs.reserve(1 << 16);
  loadModule(bcs, libs);
  auto it = fnByName.find(entry);
  if (it == fnByName.end() || !it->second->defined) { fprintf(stderr, "vsym: no function %s\n", entry.c_str()); return 3; }
  // decode everything now: path processes share it
  { double t0 = now(); for (size_t i = 0; i < fns.size(); i++) if (fns[i]->defined && !fns[i]->builtin) decode(fns[i]);
    for (Fn* c : fns) {
      if (c->intrin == 0) {
        c->intrin = 1;
        auto b = builtins.find(c->name);
        if (b != builtins.end()) { c->builtin = (Builtin)(void*)b->second; c->intrin = 2; }
      }
      for (auto& bl : c->blocks) for (auto& in : bl.insts) if (in.op == O_INTRIN && !in.imm) in.imm = intrinId(in.name) + 1;
    }
    if (verbose) fprintf(stderr, "decoded %zu functions in %.2fs\n", fns.size(), now() - t0); }
  Thread* t = new Thread;
  t->id = 0;
  threads.push_back(t);
  T = t;
  // static constructors, then the entry
  std::vector<Fn*> seq;
  extern std::vector<Fn*> ctorList();
  for (Fn* f : ctorList()) seq.push_back(f);
  // run constructors by stacking frames: last pushed runs first
  pushFrame(it->second, nullptr, 0, nullptr);
  for (auto r = seq.rbegin(); r != seq.rend(); ++r) pushFrame(*r, nullptr, 0, nullptr);
  run();
}
