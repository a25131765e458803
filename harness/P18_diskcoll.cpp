//@property P18
//@case create-stop mode=0 crash=1 reach=open,refused
//@case create-power mode=0 crash=2 reach=open,refused
//@case create-fault mode=0 crash=3 reach=open,refused
//@case flush-stop mode=1 crash=1 reach=old,new,again
//@case flush-power mode=1 crash=2 reach=old,new,again
//@case flush-fault mode=1 crash=3 reach=old,new,again,retried
//@case flush-open-fault mode=1 crash=4 reach=old,new,again,retried
//@case create-open-fault mode=0 crash=4 reach=open
//@case history mode=2 steps=5 reach=reopened,flushed
//@case history-long thorough mode=2 steps=8 reach=reopened,flushed
//@case labels mode=3 reach=accepted,refused
//@case cap mode=4 reach=accepted,refused
//@case options mode=5 reach=created,refused
//@case foreign mode=6 reach=opened,refused
//@bound a stop (process or power) or a failing file operation (or a failing open for reading) at any file operation of creation or of a second flush, at several lengths of an interrupted write; histories of 5 (thorough 8) add, flush, reopen steps; arbitrary labels within 256 of 0, 2^32 and 2^64 in two flushes of two rows; creation options at every size boundary; manifests of two segments with one entry changed; pending limits around every row boundary for two batches of 0 to 3 rows or close to every size overflow
//@assume the directory that holds the collection is itself durable; after power loss synced bytes survive and directory updates survive in order
#include "symx.h"
#include "vfs.h"
#include <algorithm>
#include <cmath>
#include <memory>
#include <map>
#include <string>
#include <index/disk/disk_collection.hpp>
using namespace alaya; using namespace alaya::disk;
typedef std::map<uint64_t, float> Rows;
static DiskCollection* make() { vfs_put("/d/x", "x", 1); return new DiskCollection("/d/c", 1, MetricType::L2, DiskIndexType::Flat); }
static void add(DiskCollection& c, Rows& r, uint64_t label, float v) { c.add_batch(&v, &label, 1); r[label] = v; }
static bool same(DiskCollection& c, const Rows& r) { // exactly these rows, each once
  if (c.size() != r.size()) return false; float q = 0; DiskSearchOptions o; o.top_k = 20; auto h = c.search(&q, o); if (h.size() != r.size()) return false; Rows g; for (auto& x : h) { auto it = r.find(x.label); if (it == r.end() || it->second * it->second != x.distance) return false; g[x.label] = it->second; } return g.size() == r.size();
}
static void arm(int crash, uint64_t max) { vfs.ops = vfs.ropens = 0; vfs.crash_kind = crash == 2 ? VFS_POWER : VFS_PROCESS; uint64_t at = symx_pick(0, max, "at"), part = crash == 4 ? 0 : symx_pick(0, 4, "part") * 30; if (part == 120) part = 4096; if (crash == 4) vfs.fail_ropen_at = at; else if (crash == 3) { vfs.fail_at = at; vfs.fail_short = part; vfs.fail_count = symx_bool("again") ? 2 : 1; } else { vfs.crash_at = at; vfs.torn = part; } }
static void disarm(int rc, int crash) { if (crash < 3) vfs_crash_recover(); vfs.crash_at = vfs.fail_at = vfs.fail_ropen_at = ~0ull; }
static DiskCollection* reopen(const char* msg) { DiskCollection* c = nullptr; int rc = symx_attempt([&] { c = new DiskCollection(DiskCollection::open("/d/c")); }); if (msg) symx_check(rc == 0, msg); return c; }
static void usable(DiskCollection* c, Rows r) { add(*c, r, 900, 9); c->flush(); symx_check(same(*c, r), "a flush after recovery adds its rows to the surviving ones"); delete c; c = reopen("the collection opens again"); if (!c) return; symx_check(same(*c, r), "all rows are there after a clean restart"); delete c; symx_reach("again"); }
extern "C" void symx_main() {
  int mode = (int)symx_param("mode", 0), crash = (int)symx_param("crash", 0); symx_clock_step = 2000000;
  if (mode == 0) {
    vfs_put("/d/x", "x", 1); arm(crash, 16); DiskCollection* c = nullptr; int rc = symx_attempt([&] { c = make(); }); bool made = c != nullptr; symx_check(rc == 77 || made || vfs.failed, "a collection is created when nothing fails"); disarm(rc, crash); if (crash >= 3) delete c;
    c = reopen(made ? "a created collection can be opened" : nullptr); if (!c) { symx_check(!made, "a created collection can be opened"); symx_reach("refused"); return; } Rows none; symx_check(same(*c, none) && c->dim() == 1, "a collection interrupted while created holds nothing"); symx_reach("open"); usable(c, none);
  } else if (mode == 1) {
    DiskCollection* c = make(); Rows r; add(*c, r, 1, 1); add(*c, r, 2, 2); c->flush(); symx_check(same(*c, r), "flushed rows are searchable"); Rows old = r; add(*c, r, 3, 3); add(*c, r, 4, 4); symx_check(same(*c, old), "pending rows are not visible before a flush");
    arm(crash, 24); bool done = false; int rc = symx_attempt([&] { c->flush(); done = true; }); symx_check(rc == 77 || done || vfs.failed, "a flush succeeds when nothing fails"); disarm(rc, crash);
    if (crash < 3) { c = reopen("the collection opens after a stop"); if (!c) return; bool n = same(*c, r); symx_check(n || same(*c, old), "a flush is kept as a whole or not at all, and earlier flushes are never lost"); if (done) symx_check(n, "a flush that returned is kept"); symx_reach(n ? "new" : "old"); usable(c, n ? r : old); return; }
    if (!done) { symx_check(same(*c, old), "a failed flush leaves the collection as it was"); symx_reach("old"); if (symx_bool("retry")) { c->flush(); symx_check(same(*c, r), "a failed flush can be retried and adds its rows exactly once"); symx_reach("retried"); delete c; c = reopen("opens"); if (!c) return; symx_check(same(*c, r), "retried rows are there after a restart"); } else { delete c; c = reopen("opens"); if (!c) return; symx_check(same(*c, old), "rows of a failed flush do not appear after a restart"); usable(c, old); return; } }
    else { symx_check(same(*c, r), "a flush that returned is visible"); symx_reach("new"); delete c; c = reopen("opens"); if (!c) return; symx_check(same(*c, r), "a flush that returned is there after a restart"); }
    usable(c, r);
  } else if (mode == 2) {
    DiskCollection* c = make(); Rows r, pend; int steps = (int)symx_param("steps", 4); uint64_t next = 5; for (int i = 0; i < steps; i++) { int op = symx_pick(0, 2, "op"); if (op == 0) { Rows t; add(*c, t, next, (float)next); pend[next] = (float)next; next += 3; } else if (op == 1) { c->flush(); r.insert(pend.begin(), pend.end()); pend.clear(); symx_reach("flushed"); } else { delete c; pend.clear(); c = reopen("opens"); if (!c) return; symx_reach("reopened"); } symx_check(same(*c, r), "exactly the flushed rows are visible"); } delete c;
  } else if (mode == 5) { // whatever options are accepted at creation, the collection can be opened again
    vfs_put("/d/x", "x", 1); static const uint64_t S[] = {0, 1234, 0xfffffff8ull, 0x7ffffffffffffff8ull, 0xfffffffffffffff0ull}; static const uint32_t U[] = {0, 1, 64, 0x7fffffff, 0xffffffff}; static const float A[] = {0.5f, 1.0f, 1.2f, 1.0000001f, 3.4e38f, INFINITY, NAN}; VamanaSegmentBuildParams p; int w = symx_pick(0, 3, "vary"); uint64_t cap = 1 << 20; if (w == 0) p.seed = S[symx_pick(0, 4, "seed")] + symx_pick(0, 15, "off"); else if (w == 3) cap = symx_bool("small") ? symx_pick(30, 50, "cap") : S[symx_pick(0, 4, "cap")] + symx_pick(0, 15, "off"); else if (w == 1) { p.R = U[symx_pick(0, 4, "R")]; p.L = U[symx_pick(0, 4, "L")]; p.num_threads = U[symx_pick(0, 4, "t")]; } else if (w == 2) p.alpha = A[symx_pick(0, 6, "alpha")];
    bool vam = symx_bool("vamana"); DiskCollection* c = nullptr; symx_attempt([&] { c = new DiskCollection("/d/c", 3, MetricType::L2, vam ? DiskIndexType::Vamana : DiskIndexType::Flat, cap, p); });
    bool good = p.R && p.L >= p.R && p.alpha >= 1 && p.alpha <= 3.4028e38f; symx_check((c != nullptr) == (!vam || good), "usable options are accepted, others refused"); if (!c) { symx_check(symx_attempt([&] { DiskCollection::open("/d/c"); }) == 2, "nothing was created"); symx_reach("refused"); return; } delete c; c = reopen("a collection created with any accepted options can be opened again"); if (!c) return; symx_check(c->dim() == 3 && c->size() == 0, "the options are kept"); float v[3] = {1, 2, 3}; uint64_t l = 5; bool fits = symx_attempt([&] { c->add_batch(v, &l, 1); }) == 0; symx_check(fits == (cap >= 40), "the pending limit is kept"); delete c; symx_reach("created");
  } else if (mode == 6) { // a manifest that lists a segment twice, or one that belongs to another kind of collection
    DiskCollection* c = make(); Rows r; add(*c, r, 1, 1); c->flush(); add(*c, r, 2, 2); c->flush(); delete c; auto m = CollectionManifest::load("/d/c/collection_manifest.txt"); int w = symx_pick(0, 5, "what"); bool csv = symx_bool("csv"); if (w == 1) m.dim = symx_pick(2, 4, "dim"); if (w == 2) m.metric = symx_bool("ip") ? MetricType::IP : MetricType::COS; if (w == 3) m.segment_ids.push_back(m.segment_ids[symx_pick(0, 1, "which")]); if (w == 4) m.segment_ids.pop_back(); if (w == 5) m.segment_ids.push_back("seg_00000007");
    auto ids = m.segment_ids; if (csv) { m.segment_ids.clear(); std::string l; for (auto& i : ids) l += (l.empty() ? "" : ",") + i; m.save("/d/c/t"); auto* d = vfs_data("/d/c/t"); std::string t(d->begin(), d->end()); t += "segments=" + l + "\n"; vfs_put("/d/c/collection_manifest.txt", t.data(), t.size()); } else m.save("/d/c/collection_manifest.txt");
    c = nullptr; int rc = symx_attempt([&] { c = new DiskCollection(DiskCollection::open("/d/c")); }); bool want = w == 0 || w == 4; symx_check(rc == (want ? 0 : 2), "a collection opens exactly when its manifest lists its own segments, each once"); if (!c) { symx_reach("refused"); return; } if (w == 4) r.erase(2); symx_check(same(*c, r), "exactly the listed segments are searched"); symx_reach("opened"); usable(c, r);
  } else if (mode == 3) {
    DiskCollection* c = make(); uint64_t l[4]; static const uint64_t B[] = {0, 0xfffffff0ull, 0xffffffffffffff00ull}; uint64_t base = B[symx_pick(0, 2, "base")]; for (auto& x : l) x = base + symx_u8("label"); float v[4] = {1, 2, 3, 4}; c->add_batch(v, l, 2); bool a = false, b = false; int rc = symx_attempt([&] { c->flush(); a = true; }); symx_check(a == (l[0] != l[1]), "a flush is refused exactly when it repeats a label"); if (!a) { symx_check(c->size() == 0, "a refused flush adds nothing"); symx_reach("refused"); return; }
    if (symx_bool("reopen")) { delete c; c = reopen("opens"); if (!c) return; } c->add_batch(v + 2, l + 2, 2); rc = symx_attempt([&] { c->flush(); b = true; }); (void)rc; bool dup = (l[2] == l[3]) | (l[0] == l[2]) | (l[0] == l[3]) | (l[1] == l[2]) | (l[1] == l[3]); symx_check(b == !dup, "a flush is refused exactly when a label exists already"); symx_check(c->size() == (b ? 4 : 2), "a refused flush adds nothing"); symx_reach(b ? "accepted" : "refused");
    float q = 0; DiskSearchOptions o; auto h = c->search(&q, o); symx_check(h.size() == (b ? 4u : 2u), "every row is returned once"); for (size_t i = 0; i < h.size(); i++) symx_check(h[i].label == l[i] && h[i].distance == v[i] * v[i], "rows keep their labels");
  } else {
    vfs_put("/d/x", "x", 1); static const uint64_t CAP[] = {0, 23, 24, 25, 48, 71, 72, 97, ~0ull}; uint64_t cap = CAP[symx_pick(0, 8, "cap")]; bool reop = symx_bool("reopen"); auto* c = new DiskCollection("/d/c", 1, MetricType::L2, DiskIndexType::Flat, cap); if (reop) { delete c; c = reopen("opens"); if (!c) return; } Rows r; uint64_t rows = 0, next = 1; float v[4] = {1, 2, 3, 4}; static const uint64_t H[] = {~0ull - 7, 1ull << 63, 1ull << 61, (~0ull) / 24 - 3, (~0ull) / 48 - 3};
    for (int i = 0; i < 2; i++) { uint64_t n = symx_bool("huge") ? H[symx_pick(0, 4, "hbase")] + symx_pick(0, 7, "n") : symx_pick(0, 3, "n"), lab[4] = {next, next + 1, next + 2, next + 3}; unsigned __int128 need = (unsigned __int128)2 * 12 * ((unsigned __int128)rows + n); if (n > 3 && need <= cap) symx_end_path(); bool ok = false; symx_attempt([&] { c->add_batch(v, lab, n); ok = true; }); symx_check(ok == (n == 0 || need <= cap), "rows are accepted exactly while they fit the pending limit"); if (ok) { for (uint64_t j = 0; j < n; j++) r[lab[j]] = v[j]; rows += n; next += n; symx_reach("accepted"); } else symx_reach("refused"); }
    c->flush(); symx_check(same(*c, r), "accepted rows are flushed, refused ones are not"); delete c;
  }
}
