//@property P10
//@case ops2 n=2 reach=inserted,replaced,refused,removed,updated,batch,reopened,legacy
//@case ops3 thorough n=3 time=900 reach=inserted,replaced,refused,removed,updated,batch,reopened,legacy
//@case crash n=1 crash=1 reach=old,new
//@case crash2 thorough n=2 crash=1 time=900 reach=old,new
//@case fault n=1 crash=3 reach=old,new
//@case readonly crash=9 reach=readonly
//@case text crash=8 reach=found
//@bound a store holding up to two records (one possibly written by an older version), then every sequence of up to 2 (thorough 3) of insert, batch insert of two, update, remove, flush, reopen; record ids 0..2, item ids out of none, "a", "b"; one indexed field absent, 1, 3 or "v"; process stop or write failure at any database write
//@assume RocksDB is modelled as an ordered map with atomic, durable batches
#include "symx.h"
#include "vfs.h"
#include <storage/rocksdb_storage.hpp>
using namespace alaya;
typedef RocksDBStorage<uint32_t> S;
struct Rec { bool has = false; std::string item; int meta = 0; char doc = 0; };
struct Model { Rec r[3]; int owner(const std::string& s) const { if (s.empty()) return -1; for (int i = 0; i < 3; i++) if (r[i].has && r[i].item == s) return i; return -1; } };
static RocksDBConfig cfg() { RocksDBConfig c; c.db_path_ = "/d/db"; c.indexed_fields_ = {"x"}; return c; }
static Rec draw(char doc, bool second = false) { static const char* it[] = {"", "a", "b", "a", "b", "a"}; static const int me[] = {0, 1, 2, 2, 3, 0}; int k = symx_pick(0, second ? 2 : 5, "rec"); Rec r; r.has = true; r.item = it[k]; r.meta = second ? 2 - me[k] : me[k]; r.doc = doc; return r; }
static ScalarData sd(const Rec& r) { MetadataMap m; if (r.meta == 1) m.emplace("x", int64_t(1)); if (r.meta == 2) m.emplace("x", std::string("v")); if (r.meta == 3) m.emplace("x", int64_t(3)); if (r.meta) m.emplace("w", true); return ScalarData(r.item, std::string(1, r.doc), m); }
static bool eq(const ScalarData& d, const Rec& r) { if (!r.has) return d.item_id.empty() && d.document.empty() && d.metadata.empty(); auto w = sd(r); return d.item_id == w.item_id && d.document == w.document && d.metadata == w.metadata; }
static bool agrees(const S& s, const Model& m) { for (uint32_t i = 0; i < 3; i++) if (s.is_valid(i) != m.r[i].has || (m.r[i].has && !eq(s[i], m.r[i]))) return false; return true; }
static void judge(const S& s, const Model& m) {
  size_t n = 0; std::vector<uint32_t> all = {2, 0, 1}, w1, wv, w3, wi;
  for (uint32_t i = 0; i < 3; i++) { n += m.r[i].has; symx_check(s.is_valid(i) == m.r[i].has, "a record exists exactly when it was stored and not removed"); if (m.r[i].has) { symx_check(eq(s[i], m.r[i]), "a record is read back as last written"); if (m.r[i].meta == 1) w1.push_back(i); if (m.r[i].meta == 2) wv.push_back(i); if (m.r[i].meta == 3) w3.push_back(i); if (m.r[i].meta & 1) wi.push_back(i); } }
  symx_check(s.count() == n, "the count is the number of records");
  for (const char* it : {"a", "b"}) { auto f = s.find_by_item_id(it); int o = m.owner(it); symx_check(f.has_value() == (o >= 0) && (!f || *f == (uint32_t)o), "an item id leads to its record only"); symx_check(s.item_id_available(it) == (o < 0), "an item id is available exactly when unused"); } symx_check(s.item_id_available(""), "an empty item id is never taken");
  auto g = s.batch_get(all); auto ids = s.batch_get_item_id_only(all); for (int k = 0; k < 3; k++) { symx_check(eq(g[k], m.r[all[k]]), "batch read"); symx_check(ids[k] == (m.r[all[k]].has ? m.r[all[k]].item : ""), "batch read of item ids"); }
  auto sc = s.scan_with_filter([](const ScalarData&) { return true; }); symx_check(sc.size() == n, "a scan sees every record once"); size_t k = 0; for (uint32_t i = 0; i < 3; i++) if (m.r[i].has && k < sc.size()) { symx_check(sc[k].first == i && eq(sc[k].second, m.r[i]), "a scan is in id order"); k++; }
  auto lim = s.scan_with_filter([](const ScalarData& d) { return d.metadata.count("x") > 0; }, 1); symx_check(lim.size() == (wi.size() + wv.size() ? 1 : 0), "a limited scan"); 
  auto ri = s.get_ids_by_int_range("x", 0, 5); std::sort(ri.begin(), ri.end());
  symx_check(s.get_ids_by_field_value("x", int64_t(1)) == w1 && s.get_ids_by_field_value("x", int64_t(3)) == w3 && s.get_ids_by_field_value("x", std::string("v")) == wv && ri == wi && s.get_ids_by_int_range("x", 2, 5) == w3 && s.get_ids_by_int_range("x", 4, 5).empty(), "the index lists exactly the records holding the value");
}
extern "C" void symx_main() {
  int n = (int)symx_param("n", 2), crash = (int)symx_param("crash", 0); vfs_put("/d/.keep", "", 0); Model m;
  if (crash == 8) { S s(cfg()); std::string a, b; int la = symx_pick(1, 2, "la"), lb = symx_pick(1, 2, "lb"); for (int i = 0; i < la; i++) a += (char)symx_u8("a"); for (int i = 0; i < lb; i++) b += (char)symx_u8("b"); symx_check(s.insert(0, ScalarData(a, "", {})), "insert"); bool same = a == b; symx_check(s.insert(1, ScalarData(b, "", {})) == !same, "item ids are unique"); auto f = s.find_by_item_id(a); symx_check(f && *f == 0, "found"); auto h = s.find_by_item_id(b); symx_check(h && *h == (same ? 0u : 1u), "found"); symx_check(s.count() == (same ? 1u : 2u), "count"); symx_reach("found"); return; }
  { rocksdb::Options o; o.create_if_missing = true; rocksdb::DB* db = nullptr; if (symx_bool("legacy")) { rocksdb::DB::Open(o, "/d/db", &db); m.r[1] = {true, "a", 1, 'L'}; auto v = sd(m.r[1]).serialize(); uint32_t id = 1; size_t c = 1; db->Put({}, "d_1", rocksdb::Slice(v.data(), v.size())); db->Put({}, "i_a", rocksdb::Slice((char*)&id, 4)); db->Put({}, index_encoding::make_field_index_key<uint32_t>("x", index_encoding::encode_value(int64_t(1)), 1), ""); db->Put({}, "__COUNT__", rocksdb::Slice((char*)&c, 8)); delete db; symx_reach("legacy"); } }
  auto* s = new S(cfg());
  if (symx_bool("first")) { Rec r{true, "b", 2, 'F'}; symx_check(s->insert(0, sd(r)), "insert"); m.r[0] = r; }
  if (crash == 9) { S ro(cfg()); symx_check(ro.is_read_only() && !s->is_read_only(), "a second opener reads only"); judge(ro, m); int t = 0; try { ro.insert(2, sd({true, "q", 0, 'q'})); } catch (const std::runtime_error&) { t++; } try { ro.remove(0); } catch (const std::runtime_error&) { t++; } try { ro.update(0, sd({true, "q", 0, 'q'})); } catch (const std::runtime_error&) { t++; } try { ro.flush(); } catch (const std::runtime_error&) { t++; } symx_check(t == 4, "a read-only store refuses changes"); judge(*s, m); symx_reach("readonly"); return; }
  judge(*s, m);
  for (int i = 0; i < n; i++) {
    Model prev = m, next = m; int op = symx_pick(0, crash ? 3 : 5, "op"); bool last = crash && i == n - 1; bool want = true, got = true; uint32_t id = op <= 3 ? symx_pick(0, op == 1 ? 1 : 2, "id") : 0; Rec r, r2;
    if (op <= 2) r = draw('A' + i); if (op == 1) { r2 = draw('a' + i, true); if (id == 2) symx_end_path(); }
    if (op == 0) { int o = m.owner(r.item); want = o < 0 || o == (int)id; if (want) { symx_reach(m.r[id].has ? "replaced" : "inserted"); next.r[id] = r; } }
    else if (op == 1) { int o = m.owner(r.item), p = m.owner(r2.item); want = (r.item.empty() || r.item != r2.item) && (o < 0 || o == (int)id) && (p < 0 || p == (int)id + 1); if (want) { next.r[id] = r; next.r[id + 1] = r2; symx_reach("batch"); } }
    else if (op == 2) { int o = m.owner(r.item); want = m.r[id].has && (o < 0 || o == (int)id); if (want) { next.r[id] = r; symx_reach("updated"); } }
    else if (op == 3) { want = m.r[id].has; if (want) { next.r[id] = Rec(); symx_reach("removed"); } }
    if (!want) symx_reach("refused");
    auto go = [&] { switch (op) { case 0: got = s->insert(id, sd(r)); break; case 1: { std::vector<ScalarData> v = {sd(r), sd(r2)}; got = s->batch_insert(id, v.begin(), v.end()); break; } case 2: got = s->update(id, sd(r)); break; case 3: got = s->remove(id); break; case 4: s->flush(); break; default: delete s; s = new S(cfg()); symx_reach("reopened"); } };
    if (last) { vfs.ops = 0; uint64_t at = symx_pick(0, 2, "at"); if (crash == 3) vfs.fail_at = at; else { vfs.crash_at = at; vfs.torn = symx_bool("after"); }
      int rc = symx_attempt(go); bool failed = vfs.failed || rc == 77;
      if (rc == 77) { vfs_crash_recover(); rocksdb::mock_open().clear(); s = new S(cfg()); } else { vfs.crash_at = vfs.fail_at = ~0ull; if (!failed) symx_check(got == want, "the result tells whether the change was made"); if (crash == 3 && got) m = next; }
      if (rc == 77) { bool isNew = agrees(*s, next) ; symx_check(isNew || agrees(*s, prev), "a write interrupted by a crash happened wholly or not at all"); if (!isNew) next = prev; symx_reach(isNew ? "new" : "old"); m = next; } else if (failed) { if (got) symx_check(agrees(*s, next), "an acknowledged write is visible"); m = got ? next : prev; symx_reach("old"); } else { m = next; symx_reach("new"); }
      judge(*s, m); delete s; s = new S(cfg()); judge(*s, m);
    } else { go(); symx_check(got == want, "the result tells whether the change was made"); m = want ? next : m; judge(*s, m); }
  }
}
