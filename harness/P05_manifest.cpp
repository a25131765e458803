//@property P05
//@case strings mode=0 reach=roundtrip
//@case numbers mode=1 reach=roundtrip
//@case digits mode=2 reach=parsed,rejected
//@case damaged mode=3 reach=parsed,rejected
//@bound one text field at a time of 0..2 (thorough 3) arbitrary bytes; numbers within 64 of every power-of-two and power-of-ten boundary; numeric text of up to 2 arbitrary bytes before or after 19 fixed digits; one arbitrary byte replaced anywhere in a stored manifest
//@assume text fields contain no line break and do not end in a carriage return
#include "symx.h"
#include <string>
#include <recovery/snapshot_manifest.hpp>
using namespace alaya::recovery;
typedef SnapshotManifest M;
static M base() { M m; m.snapshot_id_ = "snapshot-1"; m.reason_ = "manual"; m.applied_through_op_id_ = 12; m.created_unix_ms_ = 345; m.graph_file_ = "g.index"; m.data_file_ = "d.data"; m.quant_file_ = "q.quant"; m.rocksdb_dir_ = "rocksdb"; return m; }
static bool eq(const M& a, const M& b) { return a.format_version_ == b.format_version_ && a.snapshot_id_ == b.snapshot_id_ && a.reason_ == b.reason_ && a.applied_through_op_id_ == b.applied_through_op_id_ && a.created_unix_ms_ == b.created_unix_ms_ && a.graph_file_ == b.graph_file_ && a.data_file_ == b.data_file_ && a.quant_file_ == b.quant_file_ && a.rocksdb_dir_ == b.rocksdb_dir_; }
static void rt(const M& m) { auto r = M::deserialize(m.serialize()); symx_check(r.has_value(), "a written manifest can be read"); if (!r) return; symx_check(eq(*r, m), "a manifest is read back unchanged"); symx_reach("roundtrip"); }
extern "C" void symx_main() {
  int mode = (int)symx_param("mode", 0);
  M m = base(); std::string* f[] = {&m.snapshot_id_, &m.reason_, &m.graph_file_, &m.data_file_, &m.quant_file_, &m.rocksdb_dir_}; uint64_t* n[] = {&m.applied_through_op_id_, &m.created_unix_ms_};
  if (mode == 0) {
    int k = symx_pick(0, 5, "field"); int len = symx_pick(k == 0 ? 1 : 0, symx_param("len", 2), "len"); std::string s(len, 0); for (auto& c : s) { c = symx_u8("c"); symx_assume(c != '\n' && c != '\r'); } *f[k] = s; rt(m);
    fs::path d("/s"); auto j = [&](const std::string& x) { return x.empty() ? std::string() : (d / x).string(); }; symx_check(m.graph_path(d) == j(m.graph_file_) && m.data_path(d) == j(m.data_file_) && m.quant_path(d) == j(m.quant_file_), "component paths");
  } else if (mode == 1) {
    static const uint64_t b[] = {0, 90, 9990, 0x7fffffe0, 0xffffffe0, 9999999990ull, 0x7fffffffffffffe0ull, 9999999999999999990ull, 0xffffffffffffffc0ull};
    *n[symx_pick(0, 1, "which")] = b[symx_pick(0, 8, "base")] + symx_pick(0, 63, "low"); rt(m);
  } else if (mode == 2) {
    static const char* pre[] = {"", "184467440737095516", "000000000000000000"}; int k = symx_pick(0, 2, "pre"), len = symx_pick(0, 2, "len"); std::string s(len, 0); for (auto& c : s) { c = symx_u8("c"); symx_assume(c != '\n' && c != '\r'); } s = pre[k] + s; bool u32 = symx_bool("v");
    auto r = M::deserialize("snapshot_id=a\n" + std::string(u32 ? "format_version=" : "applied_through_op_id=") + s + "\n");
    bool dig = s.size() > 0; unsigned __int128 v = 0; for (char c : s) { dig = dig & (c >= '0') & (c <= '9'); v = v * 10 + (unsigned char)(c - '0'); }
    bool ok = dig & (v <= (u32 ? 0xffffffffull : ~0ull)); symx_check(r.has_value() == ok, "a number is accepted exactly when it is decimal and fits"); if (r) { symx_check((u32 ? r->format_version_ : r->applied_through_op_id_) == (uint64_t)v, "numbers are read exactly"); symx_reach("parsed"); } else symx_reach("rejected");
  } else {
    std::string s = m.serialize(); size_t at = symx_pick(0, s.size() - 1, "at"); s[at] = symx_u8("c"); auto r = M::deserialize(s); if (r) { symx_check(!r->snapshot_id_.empty(), "a manifest without identity is rejected"); symx_reach("parsed"); } else symx_reach("rejected");
    auto t = m.serialize(); for (size_t i = 0; i < t.size(); i++) if (t[i] == '\n') t.insert(i++, "\r"); auto q = M::deserialize(t); symx_check(q && eq(*q, m), "line endings do not matter");
  }
}
