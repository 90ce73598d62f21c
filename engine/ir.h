// Compact form of LLVM IR that the executor runs.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include "graph.h"

enum Kind : uint8_t { K_VOID, K_INT, K_PTR, K_F32, K_F64, K_AGG, K_OTHERFP };
struct Leaf { uint32_t off; uint32_t bits; uint8_t kind; };
struct Ty {
  uint8_t kind = K_VOID;
  bool isVec = false;
  uint32_t bits = 0;      // scalars
  uint32_t nElem = 0;     // vectors
  uint64_t store = 0, alloc = 0;
  Ty* elem = nullptr;     // vectors
  std::vector<Leaf> leaves; // aggregates and vectors, flattened
};

struct Val {
  uint64_t c;
  void* p; // scalar: Lit* or null if concrete; aggregate: Val* leaves
};

enum Op : uint16_t {
  // binary
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG,
  O_ICMP, O_FCMP, O_SELECT,
  O_ITRUNC, O_ZEXT, O_SEXT, O_BITCAST, O_NOPCAST, O_FPEXT, O_FPTRUNC, O_FPTOUI, O_FPTOSI, O_UITOFP, O_SITOFP,
  O_ALLOCA, O_LOAD, O_STORE, O_GEP, O_EXTRACTVALUE, O_INSERTVALUE, O_EXTRACTELT, O_INSERTELT, O_SHUFFLE,
  O_RMW, O_CMPXCHG, O_FENCE, O_FREEZE,
  O_BR, O_CBR, O_SWITCH, O_RET, O_UNREACHABLE, O_CALL, O_INVOKE, O_LANDINGPAD, O_RESUME,
  O_INTRIN, O_UNSUPPORTED
};

struct Fn;
struct GepStep { int32_t idx; uint32_t idxBits; int64_t scale; };
struct Inst {
  uint16_t op = 0;
  uint16_t sub = 0;
  int32_t dst = -1;
  Ty* ty = nullptr;  // result type
  Ty* ty2 = nullptr; // operand type
  int32_t a = 0, b = 0, c = 0;
  int64_t imm = 0;
  std::vector<int32_t> ops;      // call args / etc
  std::vector<Ty*> opTys;
  std::vector<uint64_t> imms;    // switch cases, clause kinds, leaf indexes, shuffle mask
  std::vector<GepStep> gep;
  int32_t t0 = -1, t1 = -1;      // block targets
  std::vector<int32_t> targets;  // switch
  Fn* callee = nullptr;
  std::string name;              // intrinsic name
  void* cache = nullptr;
  uint32_t mok = 0, mfail = 0; // branch merging: successes and failures
  uint32_t line = 0;
  const char* file = nullptr;
};
struct PhiMove { int32_t dst, src; Ty* ty; };
struct Block {
  std::vector<Inst> insts;
  std::map<int32_t, std::vector<PhiMove>> in; // predecessor -> moves
};
typedef bool (*Builtin)(struct Inst&, Val* args);
struct Fn {
  std::string name;
  uint32_t id = 0;
  uint64_t addr = 0;
  bool defined = false;
  bool decoded = false;
  bool varargs = false;
  bool real = false; // belongs to /repo sources
  Ty* ret = nullptr;
  std::vector<Ty*> params;
  std::vector<uint64_t> byval; // size of byval copy or 0
  std::vector<Block> blocks;
  int32_t nregs = 0;
  void* llvmFn = nullptr;
  Builtin builtin = nullptr;
  int intrin = 0;
  std::string src;
};
extern std::vector<Val> constVals; // operand -1-i
extern std::vector<Fn*> fns;
extern std::map<std::string, Fn*> fnByName;

struct Obj {
  uint8_t* d = nullptr;
  uint8_t* flag = nullptr; // per byte: 0 concrete 1 symbolic 2 uninitialised; null = all concrete
  Lit* sh = nullptr;       // 8 literals per byte
  uint64_t size = 0;
  uint8_t kind = 0;        // 1 heap 2 stack 3 global 4 const global 5 function
  bool alive = false;
  uint32_t stamp = 0;      // last branch side that saved a copy
  uint32_t aux = 0;        // function id / thread-local id
};
extern std::vector<Obj> objs;
uint64_t newObj(uint64_t size, uint8_t kind, bool uninit);

struct TlsGlobal { uint64_t initObj; uint64_t size; };
extern std::map<uint64_t, int> tlsGlobals; // template address -> index

void loadModule(const std::vector<std::string>& paths, const std::vector<std::string>& libs);
void decode(Fn* f);
void* arenaAlloc(uint64_t n);
uint64_t globalAddr(const std::string& name);
std::string tyName(Ty* t);
