//@property P02
//@case steps4 n=4
//@case steps5 thorough n=6 time=800
//@reach published reopened torn replayed
//@bound every sequence of up to 4 (thorough 6) steps out of prepare, commit, snapshot publication, restart and a tail torn at any byte
//@assume an operation whose record was torn or dropped with the log before its commit does not count as handed out; one process at a time; snapshots record the last committed operation, as the index does
#include "symx.h"
#include "vfs.h"
#include <recovery/recovery_manager.hpp>
using namespace alaya::recovery;
extern "C" void symx_main() {
  int n = (int)symx_param("n", 4); vfs_put("/r/.keep", "", 0); symx_clock_step = 2000000;
  auto* m = new RecoveryManager("/r", "/db"); uint64_t used = 0, committed = 0, applied = 0; bool open = false; std::vector<uint64_t> pend; // committed after `applied`
  for (int i = 0; i < n; i++) {
    switch (symx_pick(0, 4, "step")) {
      case 0: { uint64_t id = m->next_operation_id(); symx_check(id > used, "an operation id is never handed out twice"); used = id; m->append_prepare({id, MutationType::kUpsert, {'x'}}); open = true; break; }
      case 1: if (!open) symx_end_path(); m->append_commit(used, MutationType::kUpsert); committed = used; pend.push_back(used); open = false; break;
      case 2: { SnapshotManifest s; auto d = m->create_snapshot_dir(); s.snapshot_id_ = d.filename().string(); s.applied_through_op_id_ = committed; m->publish_snapshot(s, d); applied = committed; pend.clear(); open = false; used = committed; symx_reach("published"); break; }
      case 3: m = new RecoveryManager("/r", "/db"); if (open) open = false; symx_reach("reopened"); break;
      default: { auto* d = vfs_data("/r/wal.bin"); if (!open || !d) symx_end_path(); size_t cut = symx_pick(1, 28, "cut"); d->resize(d->size() - cut); open = false; used = committed; m = new RecoveryManager("/r", "/db"); symx_reach("torn"); break; }
    }
    uint64_t floor = committed > applied ? committed : applied; symx_check(m->next_operation_id() > floor, "the next operation id is above every committed or snapshotted one");
    auto snap = m->current_snapshot(); uint64_t at = snap ? snap->applied_through_op_id_ : 0; symx_check(at == applied, "snapshot covers the committed operations at its publication");
    auto recs = m->replayable_records(at); symx_check(recs.size() == pend.size(), "exactly the operations after the snapshot are replayed"); for (size_t k = 0; k < pend.size(); k++) symx_check(recs[k].op_id_ == pend[k], "replay order"); if (pend.size()) symx_reach("replayed");
  }
}
