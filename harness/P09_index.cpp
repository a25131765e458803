//@property P09
//@case int kind=0 reach=match,nomatch,fast
//@case double kind=1 reach=match,nomatch,fast
//@case string kind=2 reach=match,nomatch,fast
//@case bool kind=3 reach=match,nomatch,fast
//@case mixed kind=4 reach=match,nomatch,fast
//@case overlap kind=5 len=1 reach=match,nomatch,fast
//@case mixed2 thorough kind=4 recs=2 time=900 reach=match,nomatch,fast
//@case double2 thorough kind=1 recs=2 time=900 reach=match,nomatch,fast
//@case string2 thorough kind=2 recs=2 len=2 time=900 reach=match,nomatch,fast
//@case plain kind=4 indexed=0 reach=match,nomatch
//@case compound kind=0 compound=1 reach=match,nomatch
//@bound collections of up to 3 records of which one (thorough two) has arbitrary values: every integer, every double including NaN, infinities and signed zeros, booleans, strings of 0..2 characters out of "a", "_", "1" ; every operator; indexed fields whose names extend one another ("x", "x_i", "x_s")
//@assume records are stored under ids below the announced record count, and the same fields were indexed when they were stored; RocksDB is modelled as an ordered map with atomic batches
#include "symx.h"
#include "vfs.h"
#include <utils/metadata_filter_matcher.hpp>
using namespace alaya;
static int KIND, LEN;
static std::string text() { int l = symx_pick(0, LEN, "len"); std::string s; static const char cs[] = "a_1"; for (int i = 0; i < l; i++) s += cs[symx_pick(0, 2, "ch")]; return s; }
static MetadataValue value(const char* n, int kind) { if (kind >= 4) kind = symx_pick(0, 3, "type"); switch (kind) { case 0: return (int64_t)symx_u64(n); case 1: return symx_f64(n); case 2: return text(); default: return symx_bool(n); } }
static bool evalOne(const MetadataFilter& f, const MetadataMap& m) { return f.evaluate(m); }
extern "C" void symx_main() {
  KIND = (int)symx_param("kind", 0); LEN = (int)symx_param("len", 2); int recs = (int)symx_param("recs", 1), indexed = (int)symx_param("indexed", 1), compound = (int)symx_param("compound", 0);
  RocksDBConfig c; c.db_path_ = "/db"; if (indexed) c.indexed_fields_ = {"x"}; if (KIND == 5) c.indexed_fields_ = {"x", "x_i", "x_s"}; vfs_put("/keep", "", 0);
  RocksDBStorage<uint32_t> st(c); std::vector<MetadataMap> ms;
  for (int i = 0; i < recs; i++) { MetadataMap m; if (KIND == 5) { switch (symx_pick(0, 3, "shape")) { case 0: m.emplace("x_i", value("v", 3)); break; case 1: m.emplace("x_s", text()); break; case 2: m.emplace("x", "s_" + text()); break; default: m.emplace("x_i", value("v", 0)); } if (symx_bool("also")) m.emplace("x", text()); } else if (symx_bool("has")) m.emplace("x", value("v", KIND)); m.emplace("y", int64_t(3)); ms.push_back(m); }
  { MetadataMap m; m.emplace("y", int64_t(4)); switch (KIND) { case 0: case 4: m.emplace("x", int64_t(-1)); break; case 1: m.emplace("x", -0.0); break; case 2: m.emplace("x", std::string("a_1")); break; case 3: m.emplace("x", false); break; default: m.emplace("x", std::string("s_1")); m.emplace("x_s", std::string("a")); } ms.push_back(m); }
  for (size_t i = 0; i < ms.size(); i++) symx_check(st.insert((uint32_t)i, ScalarData("i" + std::to_string(i), "", ms[i])), "insert");
  size_t n = ms.size() + 1; // the last id holds no record
  MetadataFilter f; FilterCondition q; q.field = KIND == 5 ? (symx_bool("field") ? "x" : "x_s") : "x"; q.op = (FilterOp)symx_pick(0, 8, "op"); if (q.op == FilterOp::IN_SET || q.op == FilterOp::NOT_IN_SET) { q.values.push_back(value("q", KIND)); if (symx_bool("two")) q.values.push_back(KIND == 2 ? MetadataValue(std::string("a_1")) : MetadataValue(int64_t(-1))); } else if (KIND == 5 && symx_bool("sform")) q.value = "i_" + text(); else q.value = value("q", KIND);
  f.conditions.push_back(q); if (compound) { f.logic_op = (LogicOp)symx_pick(0, 2, "logic"); if (symx_bool("sub")) { MetadataFilter s; s.add_eq("y", int64_t(3)); f.add_sub_filter(s); } else f.add_eq("y", int64_t(3)); }
  MetadataFilterExecutor<uint32_t> ex(f, &st, n); if (ex.has_index_fast_path()) symx_reach("fast"); bool want[8]; size_t cnt = 0;
  for (size_t i = 0; i < n; i++) { want[i] = i < ms.size() && symx_concretize(evalOne(f, ms[i])); cnt += want[i]; symx_reach(want[i] ? "match" : "nomatch"); symx_check(ex.match((uint32_t)i) == want[i], "a record matches exactly when the filter accepts its metadata"); }
  auto all = ex.build_blocked_bitset(); symx_check(all.matched_count_ == cnt, "match count"); for (size_t i = 0; i < n; i++) symx_check(all.blocked_.get(i) == !want[i], "the full mask blocks exactly the non-matching records");
  std::vector<uint32_t> ids = {(uint32_t)(n - 1), 1, 0}; auto part = ex.build_blocked_bitset(ids); std::vector<uint8_t> mm; ex.eval_offsets(ids, mm); size_t pc = 0; for (size_t i = 0; i < 3; i++) { pc += want[ids[i]]; symx_check(part.blocked_.get(i) == !want[ids[i]] && mm[i] == (uint8_t)want[ids[i]], "the mask of a list follows its order"); } symx_check(part.matched_count_ == pc, "match count of a list");
}
