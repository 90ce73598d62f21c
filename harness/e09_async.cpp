// E09: background-filled buffers.
// @entry vf_e09_deferred prop=E09 reach=ok : buffer sizes 1 to 4, all sequences of 3 requests of 0 to 9 elements, all element values (generator run when its result is asked for) || sequences of 4 requests of 0 to 11
// @entry vf_e09_threads prop=E09 reach=ok : buffer sizes 1 and 2, sequences of 2 requests of 0 to 3 elements, a generator thread for each refill, every interleaving at synchronisation operations with up to 2 preemptions, destruction at any moment
#include "vf.h"
#include <future>
#include "fbpcf/engine/util/AsyncBuffer.h"
using namespace fbpcf::engine::util;
static void run(std::launch how, size_t maxBuf, int reqs, size_t maxReq) {
  std::vector<uint64_t> all;
  uint64_t x0 = vf_sym("x", 64);
  size_t produced = 0, running = 0;
  size_t size = vf_split("buffer", 1, maxBuf);
  {
    AsyncBuffer<uint64_t> b(size, [&](uint64_t n) {
      vf_check(n == size, "the generator is asked for a buffer");
      running++;
      return std::async(how, [&, n] {
        std::vector<uint64_t> r(n);
        for (auto& e : r) e = x0 + produced++ * 0x9e3779b97f4a7c15ull;
        running--;
        return r;
      });
    });
    size_t taken = 0;
    reqs = vf_split("requests", 0, reqs);
    for (int k = 0; k < reqs; k++) {
      size_t n = vf_split("n", 0, maxReq);
      auto d = b.getData(n);
      vf_check(d.size() == n, "as many elements as requested");
      for (size_t i = 0; i < n; i++, taken++) vf_check(d[i] == x0 + taken * 0x9e3779b97f4a7c15ull, "every element once and in production order");
    }
  }
  vf_check(running == 0, "destruction waits for the pending refill");
  vf_reach("ok");
}
extern "C" void vf_e09_deferred() { run(std::launch::deferred, 4, VF_THOROUGH ? 4 : 3, VF_THOROUGH ? 11 : 9); }
extern "C" void vf_e09_threads() {
  vf_explore_schedules(2);
  run(std::launch::async, 2, 2, 3);
}
