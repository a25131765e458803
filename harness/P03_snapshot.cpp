//@property P03
//@case stop crash=1 reach=old,new,replay,again
//@case power crash=2 reach=old,new
//@case fault crash=3 reach=old,new,refused
//@case restore crash=4 reach=restored
//@bound two consecutive snapshots with an operation committed in between; the stop (process or power) or the failing file operation can be any file operation of the second publication, at any byte of an interrupted write; wall clock readings may coincide
//@assume component files of a snapshot are durable before it is published (the storage engine's own duty); after power loss synced bytes survive and directory updates survive in order
#include "symx.h"
#include "vfs.h"
#include <recovery/recovery_manager.hpp>
using namespace alaya::recovery;
static void put(const std::string& p, char c) { std::string s(3, c); vfs_put(p, s.data(), s.size()); }
static bool has(const std::string& p, char c) { auto* d = vfs_data(p); return d && d->size() == 3 && (*d)[0] == c && (*d)[2] == c; }
static SnapshotManifest man(const std::string& id, uint64_t through) { SnapshotManifest m; m.snapshot_id_ = id; m.reason_ = "r" + id; m.applied_through_op_id_ = through; m.created_unix_ms_ = 7 + through; m.graph_file_ = "graph"; m.data_file_ = "data"; m.quant_file_ = ""; m.rocksdb_dir_ = "rocksdb"; return m; }
static bool eq(const SnapshotManifest& a, const SnapshotManifest& b) { return a.snapshot_id_ == b.snapshot_id_ && a.reason_ == b.reason_ && a.applied_through_op_id_ == b.applied_through_op_id_ && a.created_unix_ms_ == b.created_unix_ms_ && a.graph_file_ == b.graph_file_ && a.data_file_ == b.data_file_ && a.quant_file_ == b.quant_file_ && a.rocksdb_dir_ == b.rocksdb_dir_; }
static void fill(const fs::path& d, char c) { put((d / "graph").string(), c); put((d / "data").string(), c); put((d / "rocksdb" / "f1").string(), c); put((d / "rocksdb" / "sub" / "f2").string(), c); }
static bool filled(const fs::path& d, char c) { return has((d / "graph").string(), c) && has((d / "data").string(), c) && has((d / "rocksdb" / "f1").string(), c) && has((d / "rocksdb" / "sub" / "f2").string(), c); }
static bool equalsEither(RecoveryManager& r, const SnapshotManifest& m1, const SnapshotManifest& m2, bool& isNew) {
  auto c = r.current_snapshot(); symx_check(c.has_value(), "a published snapshot is never lost"); if (!c) return false;
  isNew = eq(*c, m2); symx_check(isNew || eq(*c, m1), "the current snapshot is exactly one of the published ones"); auto d = r.current_snapshot_dir(); symx_check(d.has_value() && filled(*d, isNew ? 'B' : 'A'), "the current snapshot has all its own files"); symx_reach(isNew ? "new" : "old");
  auto recs = r.replayable_records(c->applied_through_op_id_); if (c->applied_through_op_id_ < 2) { symx_check(recs.size() == 1 && recs[0].op_id_ == 2 && recs[0].payload_.size() == 1 && recs[0].payload_[0] == 'x', "an operation the snapshot lacks is still in the log"); symx_reach("replay"); } else symx_check(recs.empty(), "nothing is replayed twice");
  symx_check(r.next_operation_id() > 2, "operation ids keep increasing"); return true;
}
extern "C" void symx_main() {
  int crash = (int)symx_param("crash", 1); symx_clock_step = symx_bool("sametime") ? 0 : 2000000; put("/r/keep", 'k'); put("/db/live/x", 'x'); put("/db/live/stale/y", 'y');
  auto* m = new RecoveryManager("/r", "/db/live");
  m->append_prepare({1, MutationType::kInsert, {'w'}}); m->append_commit(1, MutationType::kInsert);
  fs::path d1 = m->create_snapshot_dir(); fill(d1, 'A'); SnapshotManifest m1 = man(d1.filename().string(), 1), m2; m->publish_snapshot(m1, d1);
  { auto c = m->current_snapshot(); symx_check(c.has_value() && eq(*c, m1), "a publication that returned is current"); symx_check(m->replayable_records(1).empty(), "the log holds nothing the snapshot covers"); }
  m->append_prepare({2, MutationType::kInsert, {'x'}}); m->append_commit(2, MutationType::kInsert);
  if (crash == 4) {
    auto c = m->current_snapshot(); m->restore_active_rocksdb_from_snapshot(*c, *m->current_snapshot_dir()); symx_reach("restored");
    symx_check(has("/db/live/f1", 'A') && has("/db/live/sub/f2", 'A'), "restored database holds the checkpoint"); symx_check(!vfs_exists("/db/live/x") && !vfs_exists("/db/live/stale/y") && vfs_list("/db/live").size() == 2, "restored database holds nothing else"); symx_check(filled(d1, 'A'), "restoring leaves the snapshot intact"); return;
  }
  uint64_t at, part; { vfs.ops = 0; vfs.crash_kind = crash == 2 ? VFS_POWER : VFS_PROCESS; at = symx_pick(0, 30, "at"); part = symx_pick(0, 6, "part"); part = part == 6 ? 4096 : part * 20; if (crash == 3) { vfs.fail_at = at; vfs.fail_short = part; } else { vfs.crash_at = at; vfs.torn = part; } }
  fs::path d2; bool finished = false; std::string id2;
  int rc = symx_attempt([&] { d2 = m->create_snapshot_dir(); id2 = d2.filename().string(); m2 = man(id2, 2); fill(d2, 'B'); m->publish_snapshot(m2, d2); finished = true; });
  if (part && !vfs.in_write) symx_end_path(); if (vfs.ops <= at && at < 30) symx_end_path(); // the same run as with no torn write, or with no stop
  symx_check(rc == 77 || crash == 3 || finished, "publication succeeds when nothing fails");
  if (crash != 3) vfs_crash_recover(); else vfs.crash_at = vfs.fail_at = ~0ull; if (rc == 2) { symx_check(vfs.failed, "publication is refused only when a file operation failed"); symx_reach("refused"); }
  RecoveryManager r("/r", "/db/live"); bool isNew = false; if (!equalsEither(r, m1, m2, isNew)) return; if (finished) symx_check(isNew, "a publication that returned is current");
  // the next publication works whatever was left behind
  symx_clock_step = 2000000; fs::path d3 = r.create_snapshot_dir(); symx_check(d3 != *r.current_snapshot_dir(), "a new snapshot never reuses the current one's directory"); fill(d3, 'C'); auto m3 = man(d3.filename().string(), 3); r.publish_snapshot(m3, d3);
  RecoveryManager q("/r", "/db/live"); auto c = q.current_snapshot(); symx_check(c.has_value() && eq(*c, m3) && filled(*q.current_snapshot_dir(), 'C'), "publication after recovery is current"); symx_check(vfs_list("/r/snapshots").size() == 1, "superseded snapshots are removed"); symx_reach("again");
}
