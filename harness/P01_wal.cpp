//@property P01
//@case history mode=0 n=3 reach=committed,uncommitted,mismatch,orphan
//@case history4 thorough mode=0 n=4 reach=committed,uncommitted,mismatch,orphan
//@case crash mode=1 n=2 reach=torn,cleanstop,replayed
//@case crash3 thorough mode=1 n=3 reach=torn,cleanstop,replayed
//@case power mode=2 n=3 reach=acked
//@case power4 thorough mode=2 n=4 reach=acked
//@case fault mode=6 n=3 reach=refused,after
//@case fault4 thorough mode=6 n=4 reach=refused,after
//@case damage mode=3 n=3 reach=intact,cut
//@case parser mode=4 len=34 reach=frame
//@case parser2 thorough mode=4 len=60 reach=frame
//@case truncate mode=5 reach=emptied
//@bound up to 3 (thorough 4) log frames of any kind, operation id 1..3, any mutation type, payload of 0..2 arbitrary bytes; the stop can hit any file operation and any byte of an interrupted write; one file operation may fail (device full or I/O error) after any part of its bytes; damage is any 8-byte overwrite at any offset or any cut; the parser is fed every buffer of 34 (thorough 60) bytes whose frame magics match
//@assume a write reaches the file as a prefix; after power loss synced bytes survive, unsynced bytes revert, stay or are cut, and directory updates survive in order
#include "symx.h"
#include "vfs.h"
#include <recovery/write_ahead_log.hpp>
using namespace alaya::recovery;
typedef std::vector<uint8_t> Bytes;
struct Ref { uint64_t id; uint8_t mt; Bytes pl; };
struct Frame { bool commit; uint64_t id; uint8_t mt; Bytes pl; };
// ---- reference: what a log made of these frames replays
static std::vector<Ref> refReplay(const std::vector<Frame>& fs, uint64_t applied, uint64_t& maxSeen) {
  std::vector<Ref> out; std::vector<Ref> pend; maxSeen = applied;
  for (auto& f : fs) {
    if (f.id > maxSeen) maxSeen = f.id;
    size_t k = 0; while (k < pend.size() && pend[k].id != f.id) k++;
    if (!f.commit) { if (k == pend.size()) pend.push_back({f.id, f.mt, f.pl}); else pend[k] = {f.id, f.mt, f.pl}; continue; }
    if (k == pend.size()) { symx_reach("orphan"); continue; }
    Ref r = pend[k]; pend.erase(pend.begin() + k); if (r.mt != f.mt) { symx_reach("mismatch"); continue; }
    if (r.id > applied) { size_t i = out.size(); while (i > 0 && out[i - 1].id > r.id) i--; out.insert(out.begin() + i, r); symx_reach("committed"); }
  }
  if (!pend.empty()) symx_reach("uncommitted");
  return out;
}
static uint64_t rd(const Bytes& b, size_t o, int n) { uint64_t v = 0; for (int i = n; i-- > 0;) v = v << 8 | b[o + i]; return v; }
static std::vector<Frame> refParse(const Bytes& b) {
  std::vector<Frame> fs; size_t o = 0;
  while (b.size() - o >= 24) {
    if (rd(b, o, 4) != 0x48454144u || b[o + 4] != 1 || (b[o + 5] != 1 && b[o + 5] != 2) || b[o + 6] < 1 || b[o + 6] > 4) break;
    uint64_t n = rd(b, o + 16, 8), left = b.size() - o - 24; if (left < 4 || n > left - 4) break; n = symx_concretize(n);
    if (rd(b, o + 24 + n, 4) != 0x5441494cu) break;
    fs.push_back({b[o + 5] == 2, rd(b, o + 8, 8), b[o + 6], Bytes(b.begin() + o + 24, b.begin() + o + 24 + n)}); o += 28 + n; symx_reach("frame");
  }
  return fs;
}
static void compare(const std::vector<WalRecord>& got, const std::vector<Ref>& want) {
  symx_check(got.size() == want.size(), "replay returns exactly the committed operations not yet applied");
  for (size_t i = 0; i < want.size(); i++) {
    symx_check(got[i].op_id_ == want[i].id, "replayed operation ids, ascending"); symx_check((uint8_t)got[i].mutation_type_ == want[i].mt, "replayed mutation type");
    symx_check(got[i].payload_.size() == want[i].pl.size(), "replayed payload length"); bool eq = true; for (size_t j = 0; j < want[i].pl.size(); j++) eq &= (uint8_t)got[i].payload_[j] == want[i].pl[j]; symx_check(eq, "replayed payload bytes");
  }
}
static bool same(const std::vector<WalRecord>& got, const std::vector<Ref>& want) {
  if (got.size() != want.size()) return false; bool eq = true;
  for (size_t i = 0; i < want.size(); i++) { eq &= got[i].op_id_ == want[i].id; eq &= (uint8_t)got[i].mutation_type_ == want[i].mt; if (got[i].payload_.size() != want[i].pl.size()) return false; for (size_t j = 0; j < want[i].pl.size(); j++) eq &= (uint8_t)got[i].payload_[j] == want[i].pl[j]; }
  return eq;
}
static void verify(const WriteAheadLog& w, const std::vector<Frame>& fs, uint64_t applied) { uint64_t ms = 77, want; auto ref = refReplay(fs, applied, want); auto got = w.replayable_records(applied, &ms); compare(got, ref); symx_check(ms == want, "largest operation id seen"); if (!got.empty()) symx_reach("replayed"); }
static Frame symFrame() {
  Frame f; f.commit = symx_concretize(symx_bool("commit")); f.id = symx_pick(1, 3, "op"); f.mt = (uint8_t)symx_range(1, 4, "type");
  if (!f.commit) { int n = (int)symx_pick(0, 1, "len") * 2; for (int i = 0; i < n; i++) f.pl.push_back(symx_u8("byte")); } return f;
}
static void append(const WriteAheadLog& w, const Frame& f) { if (f.commit) w.append_commit(f.id, (MutationType)f.mt); else { WalRecord r; r.op_id_ = f.id; r.mutation_type_ = (MutationType)f.mt; for (auto b : f.pl) r.payload_.push_back((char)b); w.append_prepare(r); } }
static const char* P = "/w/wal.bin";
extern "C" void symx_main() {
  int mode = (int)symx_param("mode", 0), n = (int)symx_param("n", 3); vfs_put("/w/.keep", "", 0);
  if (mode == 0) { // any history, same process and after reopening
    std::vector<Frame> fs; auto* w = new WriteAheadLog(P); for (int i = 0; i < n; i++) { fs.push_back(symFrame()); append(*w, fs.back()); }
    uint64_t ap = symx_range(0, 3, "applied"); bool reopen = symx_bool("reopen"); if (reopen) { delete w; w = new WriteAheadLog(P); } verify(*w, fs, ap); delete w;
  } else if (mode == 1 || mode == 2) { // the machine stops anywhere; the next process reads, appends one more operation, and a third process reads everything
    std::vector<Frame> fs; size_t done = 0, acked = 0; vfs.crash_kind = mode == 1 ? VFS_PROCESS : VFS_POWER;
    vfs.crash_at = symx_pick(0, 5 * n, "crash_at"); vfs.torn = symx_pick(0, 31, "torn");
    for (int i = 0; i < n; i++) { Frame f; if (mode == 1) f = symFrame(); else { f.commit = i & 1; f.id = 1 + i / 2; f.mt = (uint8_t)symx_range(1, 4, "type"); if (i & 1) f.mt = fs.back().mt; else f.pl.push_back(symx_u8("byte")); } fs.push_back(f); }
    int rc = symx_attempt([&] { auto* w = new WriteAheadLog(P); for (int i = 0; i < n; i++) { append(*w, fs[i]); done = i + 1; if (fs[i].commit) acked = i + 1; } });
    symx_assume(rc == 77); vfs_crash_recover();
    Bytes b; if (auto* d = vfs_data(P)) b = *d;
    // complete frames on disk; everything acknowledged must be there
    std::vector<Frame> on; size_t o = 0; for (auto& f : fs) { size_t len = 28 + f.pl.size(); if (b.size() < o + len) break; o += len; on.push_back(f); }
    if (b.size() > o) symx_reach("torn"); else symx_reach("cleanstop");
    if (mode == 1) symx_check(on.size() >= done, "every appended frame survives a process stop"); else { symx_check(on.size() >= acked, "every acknowledged commit survives power loss"); if (acked) symx_reach("acked"); }
    auto* w2 = new WriteAheadLog(P); verify(*w2, on, 0);
    uint64_t ms; w2->replayable_records(0, &ms); uint64_t id = ms + 1; Frame p{false, id, 2, {9}}, c{true, id, 2, {}};
    append(*w2, p); on.push_back(p); append(*w2, c); on.push_back(c); verify(*w2, on, 0); delete w2;
    WriteAheadLog w3(P); verify(w3, on, 0);
  } else if (mode == 6) { // one operation of the file system fails; appends that return must be replayed, now and after reopening
    std::vector<Frame> ok, all; uint64_t ms; vfs.fail_at = symx_pick(0, 5 * n, "fail_at"); vfs.fail_short = symx_pick(0, 31, "short"); vfs.fail_errno = 28;
    auto* w = new WriteAheadLog(P); bool refused = false;
    for (int i = 0; i <= n; i++) { Frame f; f.commit = i & 1; f.id = 1 + i / 2; f.mt = i & 1 ? all.back().mt : (uint8_t)symx_range(1, 4, "type"); if (!f.commit) f.pl.push_back(symx_u8("byte"));
      int rc = symx_attempt([&] { append(*w, f); }); all.push_back(f); if (rc == 0) { ok.push_back(f); if (refused) symx_reach("after"); } else { symx_check(vfs.failed && !refused, "an append is refused only when a file operation failed"); refused = true; symx_reach("refused"); } }
    if (symx_bool("reopen")) { delete w; w = new WriteAheadLog(P); }
    auto a = refReplay(ok, 0, ms), b = refReplay(all, 0, ms); auto got = w->replayable_records(0); symx_check(same(got, a) | same(got, b), "every acknowledged append is replayed despite a failed write"); delete w;
  } else if (mode == 3) { // damage to a finished log
    std::vector<Frame> fs; { WriteAheadLog w(P); for (int i = 0; i < n; i++) { Frame f; f.commit = i == 1; f.id = i == 2 ? 2 : 1; f.mt = (uint8_t)symx_range(1, 4, "type"); if (!f.commit) f.pl.push_back(symx_u8("byte")); fs.push_back(f); append(w, f); } }
    auto* d = vfs_data(P); size_t full = d->size();
    if (symx_bool("cut")) { d->resize(symx_pick(0, full, "size")); symx_reach("cut"); } else { uint64_t at = symx_pick(0, full - 8, "at") & ~3ull; for (int i = 0; i < 8; i++) (*d)[at + i] = symx_u8("damage"); }
    Bytes b = *d; auto on = refParse(b); if (on.size() == fs.size()) symx_reach("intact"); WriteAheadLog w(P); verify(w, on, symx_range(0, 2, "applied"));
  } else if (mode == 4) { // arbitrary file contents
    size_t len = symx_param("len", 34); Bytes b(len); symx_bytes(b.data(), len, "file"); b[0] = 0x44; b[1] = 0x41; b[2] = 0x45; b[3] = 0x48; vfs_put(P, b.data(), len); auto on = refParse(b); WriteAheadLog w(P); uint64_t ap = symx_u64("applied"); verify(w, on, ap);
  } else { WriteAheadLog w(P); Frame p{false, 1, 1, {1}}, c{true, 1, 1, {}}; append(w, p); append(w, c); verify(w, {p, c}, 0); w.truncate(); verify(w, {}, 0); symx_reach("emptied"); Frame p2{false, 2, 3, {5, 6}}, c2{true, 2, 3, {}}; append(w, p2); append(w, c2); verify(w, {p2, c2}, 0); { WriteAheadLog v(P); verify(v, {p2, c2}, symx_range(0, 2, "applied")); } w.sync(); verify(w, {p2, c2}, 0); }
}
