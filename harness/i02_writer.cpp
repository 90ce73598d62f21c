// I02: buffered writing.
// @src fbpcf/io/api/BufferedWriter.cpp
// @entry vf_i02_write prop=I02 reach=ok : chunk sizes 1 to 4, all sequences of 3 block writes (0 to 5 bytes), string writes, flushes, all contents || sequences of 4
// @entry vf_i02_fail prop=I02 reach=refused : as above, the underlying writer taking fewer bytes than given (any number, at any call)
#include "vf.h"
#include "fbpcf/io/api/BufferedWriter.h"
using namespace fbpcf::io;
struct Sink {
  std::vector<char> got;
  int closed = 0, calls = 0, shortAt = -1;
  bool refused = false;
};
struct Base : IWriterCloser {
  Sink* s;
  explicit Base(Sink* x) : s(x) {}
  int close() override { s->closed++; return 7; }
  size_t write(std::vector<char>& buf) override {
    size_t k = buf.size();
    if (s->calls++ == s->shortAt && k) {
      k = vf_split("taken", 0, k - 1);
      s->refused = true;
    }
    s->got.insert(s->got.end(), buf.begin(), buf.begin() + k);
    return k;
  }
};
static void run(int steps, int shortAt) {
  Sink s;
  s.shortAt = shortAt;
  std::vector<char> sent;
  size_t chunk = vf_split("chunk", 1, 4);
  auto w = std::make_unique<BufferedWriter>(std::make_unique<Base>(&s), chunk);
  bool reported = false;
  auto guarded = [&](auto f) {
    bool before = s.refused;
    bool t = vf_throws(f);
    vf_check(t == (s.refused && !before), "a short write raises an error, and nothing else does");
    return t;
  };
  for (int i = 0; i < steps && !reported; i++) {
    int op = vf_split("op", 0, 2);
    if (op == 2) {
      reported = guarded([&] { w->flush(); });
      if (!reported) vf_check(s.got.size() == sent.size(), "a flush delivers everything");
    } else {
      size_t n = vf_split("n", 0, 5);
      std::vector<char> b(n);
      for (auto& c : b) c = (char)vf_sym("byte", 8);
      sent.insert(sent.end(), b.begin(), b.end());
      size_t r = 0;
      if (op == 0) reported = guarded([&] { r = w->write(b); });
      else { std::string t(b.begin(), b.end()); reported = guarded([&] { r = w->writeString(t); }); }
      if (!reported) vf_check(r == n, "a write reports its length");
      if (!reported) vf_check(sent.size() - s.got.size() <= chunk, "no more than a chunk is held back");
    }
    if (!reported) {
      vf_check(s.got.size() <= sent.size(), "nothing is delivered twice");
      for (size_t k = 0; k < s.got.size(); k++) vf_check(s.got[k] == sent[k], "delivered bytes in order");
    }
  }
  if (!reported) {
    int rc = 0;
    reported = guarded([&] { rc = w->close(); });
    if (!reported) {
      vf_check(rc == 7 && s.closed == 1, "the underlying writer is closed");
      vf_check(s.got.size() == sent.size(), "everything is delivered by close");
      for (size_t k = 0; k < sent.size(); k++) vf_check(s.got[k] == sent[k], "delivered bytes in order");
    }
  }
  if (reported) vf_reach("refused");
  s.shortAt = -1;
  w.reset();
  if (!reported) vf_check(s.got.size() == sent.size(), "destruction after close delivers nothing more");
  vf_reach("ok");
}
extern "C" void vf_i02_write() { run(VF_THOROUGH ? 4 : 3, -1); }
extern "C" void vf_i02_fail() { run(2, vf_split("shortAt", 0, 3)); }
