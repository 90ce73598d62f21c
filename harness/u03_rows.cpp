// U03: rows of columns as bytes, and back as secret values.
// @src fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp fbpcf/engine/SecretShareEngine.cpp fbpcf/engine/communication/SecretShareEngineCommunicationAgent.cpp fbpcf/scheduler/EagerScheduler.cpp fbpcf/scheduler/LazyScheduler.cpp fbpcf/scheduler/gate_keeper/GateKeeper.cpp fbpcf/scheduler/WireKeeper.cpp
// @std 20
// @entry vf_u03_pairs prop=U03 reach=ok time=250 : rows of one or two columns of any of 9 kinds in any order (arrays of 2), 2 rows, immediate scheduler, all values and shares || 1 and 3 rows too, arrays of 0 to 3, both schedulers
// @entry vf_u03_bits prop=U03 reach=ok time=250 : 1, 7, 8, 9, 16 and 17 flags with an integer column before, among or after them, 1 and 2 rows, deferred scheduler, all values and shares || 1 to 17 flags
// @entry vf_u03_triples prop=U03 reach=ok time=250 : three columns of four kinds (flag, 32-bit unsigned, 64-bit signed, array of signed 32-bit), 1 row, all values and shares || of any kinds
// @entry vf_u03_columns prop=U03 reach=ok time=100 : each kind of column by itself at offset 0 to 2 of a row, all values
// @entry vf_u03_reject prop=U03 reach=ok time=100 : each kind of column with 0 to 3 values for 2 rows, arrays of a wrong length, missing, extra and misnamed columns
#include "netshare.h"
#include "fbpcf/mpc_std_lib/unified_data_process/serialization/RowStructureDefinition.h"
using namespace fbpcf::mpc_std_lib::unified_data_process::serialization;
using VB = std::vector<bool>;
using Bytes = std::vector<unsigned char>;
using T = IColumnDefinition<0>::SupportedColumnTypes;
static const T kinds[] = {T::Bit, T::UInt32, T::Int64, T::Int32Vec, T::Int32, T::UInt64, T::UInt32Vec, T::UInt64Vec, T::Int64Vec};
template <class N> std::vector<N> symInts(size_t n) { std::vector<N> r; while (r.size() < n) r.push_back((N)vf_sym("value", sizeof(N) * 8)); return r; }
template <class N> std::vector<std::vector<N>> symVecs(size_t n, size_t k) { std::vector<std::vector<N>> r; while (r.size() < n) r.push_back(symInts<N>(k)); return r; }
struct Column { // the values of one column
  std::string name;
  T type;
  VB b; std::vector<uint32_t> u32; std::vector<uint64_t> u64; std::vector<int32_t> i32; std::vector<int64_t> i64;
  std::vector<VB> bv; std::vector<std::vector<uint32_t>> u32v; std::vector<std::vector<uint64_t>> u64v; std::vector<std::vector<int32_t>> i32v; std::vector<std::vector<int64_t>> i64v;
  Column(std::string nm, T t, size_t n, size_t k) : name(nm), type(t) {
    switch (t) {
      case T::Bit: for (size_t i = 0; i < n; i++) b.push_back(vf_bool("value")); break;
      case T::PackedBitField: for (size_t i = 0; i < n; i++) { bv.emplace_back(k); for (size_t j = 0; j < k; j++) bv[i][j] = vf_bool("value"); } break;
      case T::UInt32: u32 = symInts<uint32_t>(n); break;
      case T::UInt64: u64 = symInts<uint64_t>(n); break;
      case T::Int32: i32 = symInts<int32_t>(n); break;
      case T::Int64: i64 = symInts<int64_t>(n); break;
      case T::UInt32Vec: u32v = symVecs<uint32_t>(n, k); break;
      case T::UInt64Vec: u64v = symVecs<uint64_t>(n, k); break;
      case T::Int32Vec: i32v = symVecs<int32_t>(n, k); break;
      case T::Int64Vec: i64v = symVecs<int64_t>(n, k); break;
    }
  }
  template <int id> typename IColumnDefinition<id>::InputColumnDataType input() {
    switch (type) {
      case T::Bit: return std::ref(b);
      case T::PackedBitField: return std::ref(bv);
      case T::UInt32: return std::ref(u32);
      case T::UInt64: return std::ref(u64);
      case T::Int32: return std::ref(i32);
      case T::Int64: return std::ref(i64);
      case T::UInt32Vec: return std::ref(u32v);
      case T::UInt64Vec: return std::ref(u64v);
      case T::Int32Vec: return std::ref(i32v);
      default: return std::ref(i64v);
    }
  }
  // opens a deserialised column to party 0; the values are looked at there only
  template <int id> void check(const typename IColumnDefinition<id>::DeserializeType& d) const {
    using M = fbpcf::frontend::MPCTypes<id>;
    switch (type) {
      case T::Bit: one<id>(std::get<typename M::SecBool>(d), b); break;
      case T::PackedBitField: {
        auto& v = std::get<std::vector<typename M::SecBool>>(d);
        if (bv.empty()) return;
        vf_check(v.size() == bv[0].size(), "all the flags");
        for (size_t j = 0; j < v.size(); j++) { VB w; for (auto& r : bv) w.push_back(r[j]); one<id>(v[j], w); }
        break;
      }
      case T::UInt32: one<id>(std::get<typename M::SecUnsigned32Int>(d), u32); break;
      case T::UInt64: one<id>(std::get<typename M::SecUnsigned64Int>(d), u64); break;
      case T::Int32: one<id>(std::get<typename M::Sec32Int>(d), i32); break;
      case T::Int64: one<id>(std::get<typename M::Sec64Int>(d), i64); break;
      case T::UInt32Vec: many<id>(std::get<std::vector<typename M::SecUnsigned32Int>>(d), u32v); break;
      case T::UInt64Vec: many<id>(std::get<std::vector<typename M::SecUnsigned64Int>>(d), u64v); break;
      case T::Int32Vec: many<id>(std::get<std::vector<typename M::Sec32Int>>(d), i32v); break;
      case T::Int64Vec: many<id>(std::get<std::vector<typename M::Sec64Int>>(d), i64v); break;
    }
  }
  template <int id, class S, class W> static void one(const S& s, const W& want) {
    auto got = s.openToParty(0).getValue();
    if (id) return;
    vf_check(got.size() == want.size(), "one value per row");
    bool ok = true;
    for (size_t i = 0; i < want.size(); i++) ok &= got[i] == want[i];
    vf_check(ok, "the value put in");
  }
  template <int id, class S, class W> static void many(const std::vector<S>& s, const std::vector<W>& want) {
    if (want.empty()) return;
    vf_check(s.size() == want[0].size(), "all the elements");
    for (size_t j = 0; j < s.size(); j++) { W w; for (auto& r : want) w.push_back(r[j]); one<id>(s[j], w); }
  }
};
using Columns = std::vector<Column>;
template <int id> RowStructureDefinition<id> structure(const Columns& cs, size_t k) {
  std::map<std::string, typename IColumnDefinition<id>::SupportedColumnTypes> m;
  for (auto& c : cs) m.emplace(c.name, (typename IColumnDefinition<id>::SupportedColumnTypes)(int)c.type);
  return RowStructureDefinition<id>(m, k);
}
template <int id> std::vector<Bytes> serialise(Columns& cs, size_t k, size_t rows) {
  std::unordered_map<std::string, typename IColumnDefinition<id>::InputColumnDataType> data;
  for (auto& c : cs) data.emplace(c.name, c.template input<id>());
  return structure<id>(cs, k).serializeDataAsBytesForUDP(data, rows);
}
template <int id> void back(const Columns& cs, size_t k, const std::vector<VB>& share) {
  using S = fbpcf::frontend::BitString<true, id, true>;
  S s{typename S::ExtractedString(share)};
  auto r = structure<id>(cs, k).deserializeUDPOutputIntoMPCTypes(s);
  vf_check(r.size() == cs.size(), "all the columns");
  for (auto& c : cs) {
    auto it = r.find(c.name);
    vf_check(it != r.end(), "the column is there");
    c.template check<id>(it->second);
  }
}
// rows as bytes, shared bit by bit (the least significant bit of a byte first), and back
static void there(Columns& cs, size_t k, size_t rows, bool lazy) {
  auto bytes = serialise<0>(cs, k, rows), bytes1 = serialise<1>(cs, k, rows);
  size_t w = structure<0>(cs, k).getRowSizeBytes();
  vf_check(bytes.size() == rows && bytes1.size() == rows, "as many rows as asked for");
  for (auto& b : bytes) vf_check(b.size() == w, "the announced size");
  std::vector<VB> a(w * 8, VB(rows)), b = a;
  for (size_t i = 0; i < w * 8; i++)
    for (size_t r = 0; r < rows; r++) {
      a[i][r] = vf_bool("share");
      b[i][r] = a[i][r] != (bytes[r][i / 8] >> (i % 8) & 1);
    }
  auto fac = mkFactories(2);
  em::g_fixedStream = em::g_fixedTuples = true;
  runTwo([&] { useShares<0>(0, 2, fac, lazy); back<0>(cs, k, a); }, [&] { useShares<1>(1, 2, fac, lazy); back<1>(cs, k, b); });
  vf_reach("ok");
}
extern "C" void vf_u03_pairs() {
  size_t rows = VF_THOROUGH ? vf_split("rows", 1, 3) : 2, k = VF_THOROUGH ? vf_split("length", 0, 3) : 2;
  int x = vf_split("first", 0, 8), y = vf_split("second", 0, 9);
  Columns cs;
  cs.emplace_back("b", kinds[x], rows, k);
  if (y < 9) cs.emplace_back("a", kinds[y], rows, k);
  if (!k && cs.size() == 1 && kinds[x] >= T::UInt32Vec) return vf_reach("ok"); // a row of no bytes cannot be shared
  if (!k && cs.size() == 2 && kinds[x] >= T::UInt32Vec && kinds[y] >= T::UInt32Vec) return vf_reach("ok");
  there(cs, k, rows, VF_THOROUGH && vf_split("deferred", 0, 1));
}
extern "C" void vf_u03_bits() {
  static const size_t ns[] = {1, 7, 8, 9, 16, 17};
  size_t n = VF_THOROUGH ? vf_split("flags", 1, 17) : ns[vf_split("flags", 0, 5)], rows = vf_split("rows", 1, 2);
  Columns cs;
  for (size_t i = 0; i < n; i++) cs.emplace_back(std::string("c") + (char)('a' + i), T::Bit, rows, 0);
  static const char* at[] = {"a", "cc0", "ch0", "ci0", "d"};
  cs.emplace_back(at[vf_split("at", 0, 4)], T::UInt32, rows, 0);
  there(cs, 1, rows, true);
}
extern "C" void vf_u03_triples() {
  int n = VF_THOROUGH ? 8 : 3;
  Columns cs;
  for (const char* name : {"x", "y", "w"}) cs.emplace_back(name, kinds[vf_split("kind", 0, n)], 1, 1);
  there(cs, 1, 1, false);
}
template <int id> std::unique_ptr<IColumnDefinition<id>> column(T t, size_t k) {
  using M = fbpcf::frontend::MPCTypes<id>;
  switch (t) {
    case T::UInt32: return std::make_unique<IntegerColumn<id, false, 32>>("c");
    case T::UInt64: return std::make_unique<IntegerColumn<id, false, 64>>("c");
    case T::Int32: return std::make_unique<IntegerColumn<id, true, 32>>("c");
    case T::Int64: return std::make_unique<IntegerColumn<id, true, 64>>("c");
    case T::UInt32Vec: return std::make_unique<FixedSizeArrayColumn<id, typename M::SecUnsigned32Int, uint32_t>>("c", k);
    case T::UInt64Vec: return std::make_unique<FixedSizeArrayColumn<id, typename M::SecUnsigned64Int, uint64_t>>("c", k);
    case T::Int32Vec: return std::make_unique<FixedSizeArrayColumn<id, typename M::Sec32Int, int32_t>>("c", k);
    case T::Int64Vec: return std::make_unique<FixedSizeArrayColumn<id, typename M::Sec64Int, int64_t>>("c", k);
    default: { // flags
      std::vector<std::string> names;
      for (size_t i = 0; i < k; i++) names.push_back(std::string("f") + (char)('a' + i));
      return std::make_unique<PackedBitFieldColumn<id>>("c", names);
    }
  }
}
static const T single[] = {T::PackedBitField, T::UInt32, T::UInt64, T::Int32, T::Int64, T::UInt32Vec, T::UInt64Vec, T::Int32Vec, T::Int64Vec};
extern "C" void vf_u03_columns() {
  T t = single[vf_split("kind", 0, 8)];
  size_t k = t == T::PackedBitField ? vf_split("flags", 0, 8) : 2, off = vf_split("offset", 0, 2), rows = 2;
  Column c("c", t, rows, k);
  auto d0 = column<0>(t, k);
  auto d1 = column<1>(t, k);
  size_t w = d0->getColumnSizeBytes();
  std::vector<Bytes> buf(rows, Bytes(off + w + 2)), keep;
  for (auto& b : buf) for (auto& x : b) x = vf_sym("old", 8);
  keep = buf;
  vf_check(d0->getColumnType() == (IColumnDefinition<0>::SupportedColumnTypes)(int)t && d0->getColumnName() == "c", "kind and name");
  d0->serializeColumnAsPlaintextBytes(c.input<0>(), buf, off);
  for (size_t r = 0; r < rows; r++)
    for (size_t i = 0; i < buf[r].size(); i++)
      if (i < off || i >= off + w) vf_check(buf[r][i] == keep[r][i], "other bytes are left alone");
  auto a = buf;
  for (auto& b : a) for (auto& x : b) x = vf_sym("share", 8);
  for (size_t r = 0; r < rows; r++) for (size_t i = 0; i < buf[r].size(); i++) buf[r][i] ^= a[r][i];
  auto fac = mkFactories(2);
  em::g_fixedStream = em::g_fixedTuples = true;
  runTwo([&] { useShares<0>(0, 2, fac, false); c.check<0>(d0->deserializeSharesToMPCType(a, off)); },
         [&] { useShares<1>(1, 2, fac, false); c.check<1>(d1->deserializeSharesToMPCType(buf, off)); });
  vf_reach("ok");
}
extern "C" void vf_u03_reject() {
  int kind = vf_split("case", 0, 5);
  if (kind == 0) { // a column by itself
    T t = single[vf_split("kind", 0, 8)];
    size_t n = vf_split("values", 0, 3), k = vf_split("length", 1, 3);
    Column c("c", t, n, k);
    std::vector<Bytes> buf(2, Bytes(40));
    bool threw = vf_throws([&] { column<0>(t, t >= T::UInt32Vec || t == T::PackedBitField ? 2 : k)->serializeColumnAsPlaintextBytes(c.input<0>(), buf, 0); });
    bool wrong = n != 2 || (k != 2 && (t >= T::UInt32Vec || t == T::PackedBitField));
    vf_check(threw == wrong, "rejected when the number of values is wrong");
  } else if (kind == 1) { // within a row
    size_t n = vf_split("values", 0, 3), where = vf_split("where", 0, 1);
    T t = kinds[vf_split("kind", 0, 8)];
    Columns cs;
    cs.emplace_back("a", t, where ? 2 : n, 1);
    cs.emplace_back("b", T::UInt32, where ? n : 2, 1);
    vf_check(vf_throws([&] { serialise<0>(cs, 1, 2); }) == (n != 2), "rejected when the number of values is wrong");
  } else if (kind == 2) { // a column too few or too many, or another name
    Columns cs;
    cs.emplace_back("a", kinds[vf_split("kind", 0, 8)], 2, 1);
    cs.emplace_back("b", T::UInt32, 2, 1);
    std::unordered_map<std::string, IColumnDefinition<0>::InputColumnDataType> data;
    int what = vf_split("what", 0, 3);
    data.emplace(what == 3 ? "c" : "a", cs[0].input<0>());
    if (what) data.emplace("b", cs[1].input<0>());
    if (what == 2) data.emplace("d", cs[1].input<0>());
    vf_check(vf_throws([&] { structure<0>(cs, 1).serializeDataAsBytesForUDP(data, 2); }) == true || what == 1, "rejected when the columns do not match");
    if (what == 1) vf_check(!vf_throws([&] { structure<0>(cs, 1).serializeDataAsBytesForUDP(data, 2); }), "accepted when they do");
  } else if (kind == 3) { // another kind of data
    Columns cs;
    cs.emplace_back("a", T::UInt32, 2, 1);
    Column other("a", kinds[vf_split("kind", 0, 8)], 2, 1);
    std::unordered_map<std::string, IColumnDefinition<0>::InputColumnDataType> data;
    data.emplace("a", other.input<0>());
    vf_check(vf_throws([&] { structure<0>(cs, 1).serializeDataAsBytesForUDP(data, 2); }) == (other.type != T::UInt32), "rejected when the kind of data is another");
  } else if (kind == 4) {
    Columns cs;
    cs.emplace_back("a", T::PackedBitField, 1, 1);
    vf_check(vf_throws([&] { structure<0>(cs, 1); }), "packed flags cannot be asked for");
  } else {
    size_t k = vf_split("flags", 8, 9);
    vf_check(vf_throws([&] { column<0>(T::PackedBitField, k); }) == (k > 8), "at most eight flags in a byte");
  }
  vf_reach("ok");
}
