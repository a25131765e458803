//@property P30
//@case raw-insert mode=0 kind=0 steps=3 first=0 few=1 reach=full,inserted,bare,taken,removed,byname,refused,reopened
//@case raw-remove mode=0 kind=0 steps=3 first=1 reach=removed,inserted,bare,taken,removed,byname,refused,reopened
//@case raw-name mode=0 kind=0 steps=3 first=2 reach=byname,inserted,bare,taken,removed,byname,refused,reopened
//@case sq8 mode=0 kind=1 steps=2 reach=inserted,bare,taken,removed,byname,refused,reopened
//@case sq4 mode=0 kind=2 steps=2 reach=inserted,bare,taken,removed,byname,refused,reopened
//@case raw-long thorough mode=0 kind=0 steps=4 reach=inserted,bare,full,taken,removed,byname,refused,reopened
//@case sq8-long thorough mode=0 kind=1 steps=3 reach=inserted,bare,full,taken,removed,byname,refused,reopened
//@case sq4-long thorough mode=0 kind=2 steps=3 reach=inserted,bare,full,taken,removed,byname,refused,reopened
//@case rabitq mode=0 kind=3 steps=1 reach=refused,reopened
//@case raw-fault mode=1 kind=0 reach=failed,done
//@case sq8-fault mode=1 kind=1 reach=failed,done
//@case sq4-fault mode=1 kind=2 reach=failed,done
//@case raw-cut mode=2 kind=0 reach=cut,whole
//@case sq8-cut mode=2 kind=1 reach=cut,whole
//@case sq4-cut mode=2 kind=2 reach=cut,whole
//@case rabitq-cut mode=2 kind=3 reach=cut,whole
//@case raw-fit mode=3 kind=0 reach=duplicate,missing,dbfail,exists,stored
//@case sq8-fit mode=3 kind=1 reach=duplicate,missing,dbfail,exists,stored
//@case sq4-fit mode=3 kind=2 reach=duplicate,missing,dbfail,exists,stored
//@case rabitq-fit mode=3 kind=3 reach=duplicate,missing,dbfail,exists,stored
//@bound spaces of capacity 4 holding up to 2 fitted rows of 2 (RaBitQ: 64) components, then every history of up to 3 raw (quantized 2; thorough 4 and 3) inserts with and without row data, removals by number and by item id, saves with reload; item ids out of none, "a", "b", "c"; one arbitrary 64-bit metadata value per row, indexed; a database write failing at any position; every cut of a saved file
//@assume RocksDB is modelled as an ordered map with atomic, durable batches; a space with row data is fitted or loaded before rows are inserted, saved and closed before it is loaded again, and row numbers passed to remove are below the capacity
#include "symx.h"
#include "vfs.h"
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <space/rabitq_space.hpp>
#include <space/raw_space.hpp>
#include <space/sq4_space.hpp>
#include <space/sq8_space.hpp>
using namespace alaya;
typedef uint32_t I; static const I NONE = ~0u; static const I CAP = 4;
typedef RawSpace<float, float, I, SequentialStorage<float, I>, ScalarData> R; typedef SQ8Space<float, float, I, SequentialStorage<uint8_t, I>, ScalarData> A; typedef SQ4Space<float, float, I, SequentialStorage<uint8_t, I>, ScalarData> B; typedef RaBitQSpace<float, float, I, ScalarData> Q;
template <class S> constexpr bool isQ = std::is_same_v<S, Q>;
template <class S> constexpr int DIM = isQ<S> ? 64 : 2;
struct Rec { bool live = false, has = false; std::string item; int64_t n = 0; float v = 0; };
static const char* IT[] = {"", "a", "b", "c"};
static ScalarData sd(const Rec& r) { MetadataMap m; m.emplace("n", r.n); m.emplace("t", std::string(r.item.empty() ? "none" : r.item)); return ScalarData(r.item, "doc" + r.item, m); }
static bool eq(const ScalarData& d, const Rec& r) { auto w = sd(r); return d.item_id == w.item_id && d.document == w.document && d.metadata.size() == 2 && d.metadata.count("n") && d.metadata.count("t") && std::get<std::string>(d.metadata.at("t")) == std::get<std::string>(w.metadata.at("t")) && std::get<int64_t>(d.metadata.at("n")) == r.n; }
static RocksDBConfig cfg() { RocksDBConfig c; c.db_path_ = "/d/db"; c.indexed_fields_ = {"n", "other"}; return c; }
static int owner(const std::vector<Rec>& m, const std::string& s) { if (s.empty()) return -1; for (size_t i = 0; i < m.size(); i++) if (m[i].live && m[i].has && m[i].item == s) return (int)i; return -1; }
template <class S> static bool same(S& s, I i, float v) { if constexpr (std::is_same_v<S, R> || isQ<S>) return s.get_data_by_id(i)[0] == v; else { float d[2] = {v, 1}; uint8_t c[4] = {}; s.get_quantizer().encode(d, c); return memcmp(c, s.get_data_by_id(i), s.get_data_size()) == 0; } }
template <class S> static void judge(S& s, const std::vector<Rec>& m, int64_t probe) {
  size_t nr = 0, live = 0, hits = 0; int first = -1;
  for (size_t i = 0; i < m.size(); i++) if (m[i].live) { live++; symx_check(same(s, (I)i, m[i].v), "a row keeps its vector"); if (m[i].has) { nr++; symx_check(eq(s.get_scalar_data((I)i), m[i]), "a row's data is read back as it was given"); if (m[i].n == probe) { hits++; if (first < 0) first = (int)i; } } }
  for (I i = 0; i < CAP; i++) if (i >= m.size() || !m[i].live || !m[i].has) { auto d = s.get_scalar_data(i); symx_check(d.item_id.empty() && d.document.empty() && d.metadata.empty(), "a removed, refused or bare row has no data"); }
  for (int k = 1; k < 4; k++) { int o = owner(m, IT[k]); std::pair<I, ScalarData> p; int rc = symx_attempt([&] { p = s.get_scalar_data(std::string(IT[k])); }); symx_check(rc == (o < 0 ? 2 : 0), "an item id is known exactly while its row is live"); if (o >= 0 && rc == 0) symx_check(p.first == (I)o && eq(p.second, m[o]), "an item id leads to its own row"); }
  MetadataFilter all, f; f.add_eq("n", probe); auto g = s.get_scalar_data(all, 99); symx_check(g.size() == nr, "a scan sees every live row with data once"); std::set<I> seen; for (auto& [i, d] : g) symx_check(i < m.size() && m[i].live && m[i].has && seen.insert(i).second && eq(d, m[i]), "a scan sees live rows with their own data");
  auto h = s.get_scalar_data(f, 99); symx_check(h.size() == hits, "a filter selects the rows whose data match"); for (auto& [i, d] : h) symx_check(i < m.size() && m[i].live && m[i].n == probe && eq(d, m[i]), "a filter selects matching rows with their own data"); if (nr > 1) symx_check(s.get_scalar_data(all, 1).size() == 1, "a limit is obeyed");
  auto* st = s.get_scalar_storage(); symx_check(st && st->count() == nr, "the number of records is the number of live rows with data"); auto ids = st->get_ids_by_field_value("n", probe); symx_check(ids.size() == hits && (!hits || std::find(ids.begin(), ids.end(), (I)first) != ids.end()), "the index lists exactly the live rows holding a value");
  if constexpr (std::is_same_v<S, R>) symx_check(s.get_avl_data_num() == live, "the number of available rows"); symx_check(s.get_data_num() >= live, "the number of rows");
}
static int tick; static Rec draw(const std::vector<Rec>& m, int64_t n) { Rec r; r.live = r.has = true; r.item = IT[symx_param("few", 0) ? symx_pick(0, 1, "item") * 2 + 1 : symx_pick(0, 3, "item")]; r.n = n; r.v = (float)(tick++ % 7) - 3; return r; }
template <class S> static std::vector<float> vec(const Rec& r) { std::vector<float> v(DIM<S>, 1.0f); v[0] = r.v; return v; }
template <class S> static int fit(S& s, const std::vector<Rec>& m, bool data = true) { std::vector<float> d; std::vector<ScalarData> x; for (auto& r : m) { auto v = vec<S>(r); d.insert(d.end(), v.begin(), v.end()); x.push_back(sd(r)); } return symx_attempt([&] { s.fit(d.data(), (I)m.size(), data ? x.data() : nullptr); }); }
template <class S> static std::unique_ptr<S> make() { return std::make_unique<S>(CAP, DIM<S>, MetricType::L2, cfg()); }
template <class S> static std::unique_ptr<S> reload(std::unique_ptr<S> s) { s->save("/d/f"); s->close_db(); s.reset(); auto r = std::make_unique<S>(); r->load("/d/f"); r->set_metric_function(); symx_reach("reopened"); return r; }
template <class S> static std::unique_ptr<S> start(std::vector<Rec>& m, int64_t a, int64_t b) { auto s = make<S>(); Rec r, q; r.live = r.has = q.live = q.has = true; r.item = symx_bool("named") ? "a" : ""; q.item = "b"; r.n = a; q.n = b; r.v = -3; q.v = 3; m = {r, q}; symx_check(fit(*s, m) == 0, "rows with distinct item ids are accepted"); return s; }
// one step; returns through m the state the space must be in when the step was carried out
template <class S> static int step(S& s, std::vector<Rec>& m, int op, int64_t n, bool& must, int& id) {
  must = true; id = -1; if constexpr (isQ<S>) { symx_reach("refused"); Rec r; auto v = vec<S>(r); auto d = sd(r); must = false; return symx_attempt([&] { op ? (void)s.remove(op == 1 ? 0 : 1) : (void)s.insert(v.data(), &d); }); }
  else {
    if (op == 0) { Rec r = draw(m, n); r.has = !symx_bool("bare"); bool taken = r.has && owner(m, r.item) >= 0, full = m.size() == CAP; auto v = vec<S>(r); auto d = sd(r); I got = NONE; int rc = symx_attempt([&] { got = s.insert(v.data(), r.has ? &d : nullptr); });
      if (full) { symx_check(rc == 0 && got == NONE, "a full space refuses a row"); symx_reach("full"); must = false; return 2; } if (taken) { symx_check(rc == 2, "an item id in use is refused"); symx_reach("taken"); m.push_back(Rec()); must = false; return rc; }
      if (rc == 0) { symx_check(got == m.size(), "rows are numbered in order"); symx_reach(r.has ? "inserted" : "bare"); m.push_back(r); } else m.push_back(Rec()); return rc; }
    if (op == 1) { id = symx_pick(0, CAP - 1, "id"); bool ok = id < (int)m.size() && m[id].live; I got = NONE; int rc = symx_attempt([&] { got = s.remove((I)id); }); if (!ok) { symx_check(rc == 0 && got == NONE, "only a live row can be removed"); symx_reach("refused"); must = false; return 2; } if (rc == 0) { symx_check(got == (I)id, "the removed row's number is returned"); m[id] = Rec(); symx_reach("removed"); } return rc; }
    std::string it = IT[symx_pick(1, 3, "item")]; int o = owner(m, it); I got = NONE; int rc = symx_attempt([&] { got = s.remove(it); }); if (o < 0) { symx_check(rc == 2, "an unknown item id is refused"); must = false; return rc; } if (rc == 0) { symx_check(got == (I)o, "the removed row's number is returned"); m[o] = Rec(); symx_reach("byname"); } return rc;
  }
}
template <class S> static void run(int mode) {
  std::vector<Rec> m; int64_t a = (int64_t)symx_u64("n"), b = 5; bool must; int id;
  if (mode == 0) {
    auto s = start<S>(m, a, b); judge(*s, m, 5);
    int fo = (int)symx_param("first", 9); if (fo > 3) fo = -1;
    for (int k = (int)symx_param("steps", 2); k--;) { int op = fo >= 0 ? fo : (int)symx_pick(0, 3, "op"); fo = -1; if (op == 3) s = reload(std::move(s)); else { int rc = step(*s, m, op, k ? 5 : a, must, id); if (must) symx_check(rc == 0, "the step is carried out"); } judge(*s, m, 5); }
    s = reload(std::move(s)); judge(*s, m, a); auto* st = s->get_scalar_storage(); symx_check(st->get_db_path() == "/d/db" && st->config().indexed_fields_ == std::vector<std::string>{"n", "other"}, "the database and its indexed fields are remembered"); if constexpr (!isQ<S>) { Rec r; r.live = r.has = true; r.item = "z"; r.n = 5; auto v = vec<S>(r); auto d = sd(r); if (m.size() < CAP) { symx_check(s->insert(v.data(), &d) == m.size(), "a reopened space goes on"); m.push_back(r); judge(*s, m, 5); } }
  } else if (mode == 1) {
    if constexpr (!isQ<S>) { auto s = start<S>(m, a, b); int op = symx_pick(0, 2, "op"); auto before = m; vfs.ops = 0; vfs.fail_at = symx_pick(0, 1, "at"); vfs.fail_count = 1; int rc = step(*s, m, op, 5, must, id); vfs.fail_at = ~0ull; if (vfs.failed) { symx_check(!must || rc == 2, "a failed database write is reported"); symx_reach("failed"); } else { symx_check(!must || rc == 0, "the step is carried out"); symx_reach("done"); }
      judge(*s, m, 5); judge(*s, m, a); op = symx_pick(0, 2, "op2"); rc = step(*s, m, op, 5, must, id); if (must) symx_check(rc == 0, "the space goes on after a failure"); judge(*s, m, 5); s = reload(std::move(s)); judge(*s, m, 5); }
  } else if (mode == 2) {
    auto s = start<S>(m, a, b); if constexpr (isQ<S>) s->set_ep(1); s->save("/d/f"); s->close_db(); s.reset(); auto d = *vfs_data("/d/f"); size_t n = d.size(), c = symx_pick(0, n < 400 ? n : 400, "cut"); if (c >= 400) c = n - symx_pick(0, 2, "back") * 40; vfs_put("/d/f", d.data(), c);
    S r; int rc = symx_attempt([&] { r.load("/d/f"); }); if (c < n) { symx_check(rc == 2, "a file that was cut short is refused"); symx_reach("cut"); } else { symx_check(rc == 0, "a whole file is read"); judge(r, m, 5); symx_reach("whole"); }
  } else {
    auto s = make<S>(); Rec r, q; r.live = r.has = q.live = q.has = true; r.n = a; q.n = b; r.v = -3; q.v = 3; r.item = "a"; int how = symx_pick(0, 4, "how"); q.item = how == 0 ? "a" : "b"; m = {r, q}; if (how == 3) RocksDBStorage<I> other(cfg());
    if (how == 2) { vfs.ops = 0; vfs.fail_at = symx_pick(0, 3, "at"); vfs.fail_count = 1; } int rc = fit(*s, m, how != 1); vfs.fail_at = ~0ull; bool ok = how == 4 || (how == 2 && !vfs.failed); symx_check(rc == (ok ? 0 : 2), "rows are stored with their data or refused"); symx_reach(how == 0 ? "duplicate" : how == 1 ? "missing" : how == 3 ? "exists" : ok ? "stored" : "dbfail");
    if (!ok) { symx_check(s->get_data_num() == 0, "a refused fit stores no rows"); if (how != 3) { q.item = "b"; m = {r, q}; rc = fit(*s, m); symx_check(rc == 0 || how == 2, "a corrected fit is accepted"); ok = rc == 0; } } if (ok) { judge(*s, m, 5); s = reload(std::move(s)); judge(*s, m, a); }
  }
}
extern "C" void symx_main() { int mode = (int)symx_param("mode", 0), kind = (int)symx_param("kind", 0); vfs_put("/d/.k", "", 0); if (kind == 0) run<R>(mode); else if (kind == 1) run<A>(mode); else if (kind == 2) run<B>(mode); else run<Q>(mode); }
