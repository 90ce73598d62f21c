// Native implementation of vf.h for replaying a counterexample against the compiled code.
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <thread>
#include <unistd.h>
static std::map<std::string, std::vector<uint64_t>> in;
static std::map<std::string, size_t> pos;
#include <mutex>
static std::mutex inLock;
static uint64_t next(std::string n) {
  std::lock_guard<std::mutex> g(inLock);
  for (auto& c : n) if (c == ' ') c = '_';
  auto& v = in[n];
  size_t k = pos[n]++;
  return k < v.size() ? v[k] : 0;
}
extern "C" {
bool vf_flat_hash = false;
uint64_t vf_sym(const char* n, uint32_t bits) { uint64_t v = next(n); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
void vf_assume(bool c) { if (!c) { fprintf(stderr, "replay: assumption not met\n"); _exit(40); } }
void vf_check(bool c, const char* m) { if (!c) { fprintf(stderr, "replay: CHECK FAILED: %s\n", m); _exit(42); } }
void vf_reach(const char*) {}
uint64_t vf_concrete(uint64_t v) { return v; }
bool vf_symbolic_mode() { return false; }
bool vf_is_symbolic(uint64_t) { return false; }
uint64_t vf_cut(uint64_t v) { return v; }
uint64_t vf_canon(uint64_t v) { return v; }
void vf_print(const char* n, uint64_t v) { fprintf(stderr, "[vf] %s %llu\n", n, (unsigned long long)v); }
void vf_fault(const char* m) { fprintf(stderr, "replay: FAULT: %s\n", m); _exit(42); }
void vf_unsupported(const char* m) { fprintf(stderr, "replay: unsupported %s\n", m); _exit(41); }
void vf_explore_schedules(uint32_t) {}
void vf_yield() { std::this_thread::yield(); }
void vf_end_path() { _exit(0); }
uint64_t vf_live_heap() { return 0; }
int vf_rdseed64(unsigned long long* p) { *p = next("rdseed"); return 1; }
int vf_rdseed32(unsigned* p) { *p = (unsigned)next("rdseed"); return 1; }
}
#include <dlfcn.h>
int main(int, char** argv) {
  FILE* f = fopen(argv[1], "r");
  if (!f) return 43;
  char line[4096], name[1024];
  while (fgets(line, sizeof line, f)) {
    unsigned idx, bits;
    unsigned long long v;
    if (sscanf(line, "INPUT %1000s %u %u %llx", name, &idx, &bits, &v) == 4) in[name].push_back(v);
    if (!strncmp(line, "STACK", 5)) break;
  }
  fclose(f);
  alarm(60);
  auto entry = (void (*)())dlsym(RTLD_DEFAULT, argv[2]);
  if (!entry) return 43;
  entry();
  fprintf(stderr, "replay: ended without a failure\n");
  _exit(0);
}
