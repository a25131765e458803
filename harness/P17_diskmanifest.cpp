//@property P17
//@case segment mode=0 reach=roundtrip
//@case collection mode=1 reach=roundtrip
//@case text mode=2 reach=roundtrip,refused
//@case names mode=3 reach=parsed,rejected
//@case digits mode=4 reach=parsed,rejected
//@case damaged-segment mode=5 reach=parsed,rejected
//@case damaged-collection mode=6 reach=parsed,rejected
//@case keys mode=7 reach=parsed,rejected
//@case size mode=8 reach=rejected
//@bound every index type and metric; numbers within 64 of every power-of-two and power-of-ten boundary; 0..2 segment ids; file names and extension values of up to 2 (thorough 3) arbitrary bytes; numeric text of up to 2 arbitrary bytes before or after 19 fixed digits; one arbitrary byte replaced anywhere; every required line missing, empty or repeated, one extra line with an arbitrary first key byte
//@assume file names and extension values that are written contain no line break and no surrounding white space (the library only writes constants and numbers there)
#include "symx.h"
#include "vfs.h"
#include <string>
#include <index/disk/segment_manifest.hpp>
using namespace alaya; using namespace alaya::disk;
typedef SegmentManifest S; typedef CollectionManifest C;
static const DiskIndexType TY[] = {DiskIndexType::Flat, DiskIndexType::Vamana, DiskIndexType::Laser}; static const MetricType ME[] = {MetricType::L2, MetricType::IP, MetricType::COS};
static S seg() { S m; m.segment_id = "seg_00000012"; m.dim = 8; m.count = 30; m.x_extras["x_graph_file"] = "graph.index"; return m; }
static C col() { C m; m.dim = 8; m.metric = MetricType::IP; m.next_segment_id = 3; m.segment_ids = {"seg_00000001", "seg_00000002"}; m.x_extras["x_max_pending_bytes"] = "99"; return m; }
static bool eq(const S& a, const S& b) { return a.version == b.version && a.segment_id == b.segment_id && a.index_type == b.index_type && a.metric == b.metric && a.dim == b.dim && a.count == b.count && a.ids_file == b.ids_file && a.vectors_file == b.vectors_file && a.x_extras == b.x_extras; }
static bool eq(const C& a, const C& b) { return a.version == b.version && a.dim == b.dim && a.metric == b.metric && a.index_type == b.index_type && a.next_segment_id == b.next_segment_id && a.segment_ids == b.segment_ids && a.x_extras == b.x_extras; }
template <class M> static bool load(M& m) { return symx_attempt([&] { m = M::load("/m"); }) == 0; }
template <class M> static void rt(const M& m) { vfs_put("/m", "", 0); m.save("/m"); M r; bool ok = load(r); symx_check(ok, "a manifest that was saved can be loaded"); if (!ok) return; symx_check(eq(r, m), "a manifest is loaded exactly as saved"); symx_reach("roundtrip"); }
static void put(const std::string& s) { vfs_put("/m", s.data(), s.size()); }
static std::string text() { auto* d = vfs_data("/m"); return std::string(d->begin(), d->end()); }
static uint64_t num() { static const uint64_t b[] = {1, 90, 9990, 0x7fffffe0, 0xffffffe0, 9999999990ull, 0x7fffffffffffffe0ull, 9999999999999999990ull, 0xffffffffffffffc0ull}; return b[symx_pick(0, 8, "base")] + symx_pick(0, 63, "low"); }
static bool safe(const std::string& s, bool mayBeEmpty) { if (s.empty()) return mayBeEmpty; bool ok = s != "." && s != ".."; for (char c : s) ok = ok & (c != '/') & (c != 0); return ok; }
static bool segid(const std::string& s) { bool ok = s.size() == 12; if (!ok) return false; ok = (s[0] == 's') & (s[1] == 'e') & (s[2] == 'g') & (s[3] == '_'); for (int i = 4; i < 12; i++) ok = ok & (s[i] >= '0') & (s[i] <= '9'); return ok; }
static void sane(const S& m) { symx_check(m.version == kManifestVersion && segid(m.segment_id) && m.dim > 0 && m.count > 0 && m.metric != MetricType::NONE, "an accepted segment manifest has a valid identity, dimension, count and metric"); symx_check(safe(m.ids_file, false) && safe(m.vectors_file, true), "accepted file names never leave the segment directory"); for (auto& [k, v] : m.x_extras) symx_check(k.size() >= 2 && k[0] == 'x' && k[1] == '_', "unknown keys without the extension prefix are refused"); }
static void sane(const C& m) { symx_check(m.version == kManifestVersion && m.dim > 0 && m.metric != MetricType::NONE, "an accepted collection manifest has a valid dimension and metric"); for (auto& s : m.segment_ids) symx_check(segid(s), "accepted segment ids never leave the segments directory"); for (auto& [k, v] : m.x_extras) symx_check(k.size() >= 2 && k[0] == 'x' && k[1] == '_', "unknown keys without the extension prefix are refused"); }
template <class M> static void damaged(const M& m) {
  m.save("/m"); std::string s = text(); size_t at = symx_pick(0, s.size() - 1, "at"); uint8_t c = symx_u8("c"); char old = s[at]; symx_assume((char)c != old); s[at] = c; put(s); M r; if (!load(r)) { symx_reach("rejected"); return; } symx_reach("parsed"); sane(r);
}
static std::string anyText(int max, bool clean) { int len = symx_pick(0, max, "len"); std::string s(len, 0); for (auto& c : s) { c = symx_u8("c"); symx_assume(c != '\n'); } if (clean && len) { for (char c : {s[0], s[len - 1]}) symx_assume((c != ' ') & (c != '\t') & (c != '\r')); } return s; }
extern "C" void symx_main() {
  int mode = (int)symx_param("mode", 0), max = (int)symx_param("len", 2); S s = seg(); C c = col();
  if (mode == 0) { int k = symx_pick(0, 2, "what"); if (k == 0) { s.index_type = TY[symx_pick(0, 2, "type")]; s.metric = ME[symx_pick(0, 2, "metric")]; if (symx_bool("nox")) s.x_extras.clear(); if (symx_bool("novec")) s.vectors_file = ""; } else (k == 1 ? s.dim : s.count) = num(); rt(s); }
  else if (mode == 1) { int k = symx_pick(0, 2, "what"); if (k == 0) { c.index_type = TY[symx_pick(0, 2, "type")]; c.metric = ME[symx_pick(0, 2, "metric")]; c.segment_ids.resize(symx_pick(0, 2, "nseg")); if (symx_bool("nox")) c.x_extras.clear(); } else (k == 1 ? c.dim : c.next_segment_id) = num(); rt(c); }
  else if (mode == 2) { // written text fields
    int k = symx_pick(0, 3, "field"); std::string t = anyText(max, true); if (k == 3) { c.x_extras["x_a"] = t; rt(c); return; } if (k == 2) { s.x_extras["x_a"] = t; rt(s); return; }
    (k == 0 ? s.ids_file : s.vectors_file) = t; vfs_put("/m", "", 0); s.save("/m"); S r; bool ok = load(r); symx_check(ok == safe(t, k == 1), "a file name is accepted exactly when it stays inside the segment directory"); if (ok) { symx_check(eq(r, s), "file names are read exactly"); symx_reach("roundtrip"); } else symx_reach("refused");
  } else if (mode == 3) { // segment ids
    static const char* id = "seg_00000012"; int len = symx_pick(0, 2, "delta") + 11; std::string t(id); t.resize(len, '3'); int at = symx_pick(0, len - 1, "at"); t[at] = symx_u8("c"); symx_assume((t[at] != '\n') & (t[at] != ' ') & (t[at] != '\t') & (t[at] != '\r')); bool coll = symx_bool("collection"), csv = false, ok;
    if (coll) { csv = symx_bool("csv"); symx_assume(!csv || t[at] != ','); put("version=1\ndim=8\nmetric=L2\nindex_type=disk_flat\nnext_segment_id=3\n" + (csv ? "segments=seg_00000001," + t : "segment=seg_00000001\nsegment=" + t) + "\n"); C r; ok = load(r); if (ok) symx_check(r.segment_ids.size() == 2 && r.segment_ids[1] == t && r.segment_ids[0] == "seg_00000001", "segment ids are read exactly and in order"); }
    else { s.segment_id = t; s.save("/m"); S r; ok = load(r); if (ok) symx_check(r.segment_id == t, "the segment id is read exactly"); }
    symx_check(ok == segid(t), "a segment id is accepted exactly when it is seg_ and eight digits"); symx_reach(ok ? "parsed" : "rejected");
  } else if (mode == 4) {
    static const char* pre[] = {"", "184467440737095516", "000000000000000000"}; int k = symx_pick(0, 2, "pre"); std::string t = pre[k] + anyText(2, true); bool coll = symx_bool("collection"); int f = symx_pick(0, 1, "field"); if (t.empty()) t = "";
    bool ok; uint64_t v = 0; if (coll) { put("version=1\ndim=" + (f ? t : "8") + "\nmetric=L2\nindex_type=disk_flat\nnext_segment_id=" + (f ? "3" : t) + "\n"); C r; ok = load(r); v = f ? r.dim : r.next_segment_id; } else { put("version=1\nsegment_id=seg_00000001\nindex_type=disk_flat\nmetric=L2\ndim=" + (f ? t : "8") + "\ncount=" + (f ? "3" : t) + "\nids_file=a\nvectors_file=b\n"); S r; ok = load(r); v = f ? r.dim : r.count; }
    bool dig = t.size() > 0; unsigned __int128 w = 0; for (char ch : t) { dig = dig & (ch >= '0') & (ch <= '9'); w = w * 10 + (unsigned char)(ch - '0'); } bool zeroOk = coll && f == 0;
    symx_check(ok == (dig & (w <= ~0ull) & (zeroOk | (w != 0))), "a number is accepted exactly when it is decimal, in range and not a zero size"); if (ok) symx_check(v == (uint64_t)w, "numbers are read exactly"); symx_reach(ok ? "parsed" : "rejected");
  } else if (mode == 5) damaged(s);
  else if (mode == 6) damaged(c);
  else if (mode == 7) { // whole lines missing, emptied, repeated or added; layout that does not matter
    bool coll = symx_bool("collection"); if (coll) c.save("/m"); else s.save("/m"); std::string t = text(); std::vector<std::string> L; { size_t p = 0; while (p < t.size()) { size_t q = t.find('\n', p); L.push_back(t.substr(p, q - p)); p = q + 1; } }
    int req = coll ? 5 : 8; int what = symx_pick(0, 5, "what"); auto join = [&](const char* nl) { std::string o; for (auto& l : L) o += l + nl; return o; }; bool expect = true; std::string out;
    if (what <= 2) { int at = symx_pick(0, L.size() - 1, "line"); bool isReq = at < req; std::string key = L[at].substr(0, L[at].find('=')); if (what == 0) { L.erase(L.begin() + at); expect = !isReq; } else if (what == 1) { L[at] = key + "="; expect = key == "vectors_file" || !(isReq || key == "segment"); } else { L.push_back(L[at]); expect = key == "segment"; } out = join("\n"); }
    else if (what == 3) { std::string k = "a_k"; k[0] = symx_u8("k0"); symx_assume((k[0] != '\n') & (k[0] != '#') & (k[0] != ' ') & (k[0] != '\t') & (k[0] != '\r') & (k[0] != '=')); L.push_back(k + "=v"); expect = k[0] == 'x'; out = join("\n"); }
    else if (what == 4) { L.insert(L.begin() + 1, "# version=9"); L.insert(L.begin(), ""); for (auto& l : L) if (l.find('=') != std::string::npos && l[0] != '#') { size_t e = l.find('='); l = " " + l.substr(0, e) + " = " + l.substr(e + 1) + "\t"; } out = join("\r\n"); out.pop_back(); }
    else { out = "\xEF\xBB\xBF" + join("\n"); expect = false; }
    put(out); if (coll) { C r; bool ok = load(r); if (what != 2 || expect == false) symx_check(ok == expect, "missing, empty, repeated or unknown keys are refused and layout does not matter"); if (ok && what == 4) symx_check(eq(r, c), "layout does not change the collection manifest"); if (ok) sane(r); symx_reach(ok ? "parsed" : "rejected"); }
    else { S r; bool ok = load(r); symx_check(ok == expect, "missing, empty, repeated or unknown keys are refused and layout does not matter"); if (ok && what == 4) symx_check(eq(r, s), "layout does not change the segment manifest"); if (ok) sane(r); symx_reach(ok ? "parsed" : "rejected"); }
  } else { s.save("/m"); std::string t = text(); bool over = symx_bool("over"); size_t total = (1u << 20) + (over ? 1 : 0); std::string pad = "#"; pad.resize(total - t.size(), '#'); put(t + pad); S r; bool ok = load(r); symx_check(ok == !over, "a manifest is refused exactly when it is larger than 1 MiB"); if (over) symx_reach("rejected"); }
}
