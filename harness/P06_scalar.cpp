//@property P06
//@case roundtrip mode=0 n=1 reach=roundtrip,selected,single
//@case roundtrip2 mode=0 n=2 reach=roundtrip,selected,single
//@case roundtrip3 thorough mode=0 n=3 len=2 reach=roundtrip,selected,single
//@case truncated mode=1 n=2 reach=refused
//@case arbitrary mode=2 size=16 reach=accepted,refused
//@case arbitrary_big thorough mode=2 size=24 time=600 reach=accepted,refused
//@case null mode=3 reach=refused
//@bound records with up to 2 (thorough 3) metadata entries; every text 0..1 (thorough 2) arbitrary bytes (the lengths 0, 1 and 300 are mixed in); every 64-bit integer, double bit pattern and boolean; arbitrary buffers of up to 16 (thorough 24) bytes
//@assume the entries of one record have distinct keys (it is a map)
#include "symx.h"
#include <cstring>
#include <utils/scalar_data.hpp>
using namespace alaya;
static std::string text(const char* n, int max) { int l = symx_pick(0, max, "len"); std::string s(l, 0); for (auto& c : s) c = symx_u8(n); return s; }
static MetadataValue value(int len) { switch (symx_pick(0, 3, "type")) { case 0: return (int64_t)symx_u64("i"); case 1: return symx_f64("d"); case 2: return text("sv", len); default: return symx_bool("b"); } }
static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static bool same(const MetadataValue& a, const MetadataValue& b) { if (a.index() != b.index()) return false; if (a.index() == 1) return bits(std::get<1>(a)) == bits(std::get<1>(b)); return a == b; }
extern "C" void symx_main() {
  int mode = (int)symx_param("mode", 0), n = (int)symx_param("n", 1), len = (int)symx_param("len", 1);
  if (mode == 3) { bool t = false; try { ScalarData::deserialize(nullptr, 4); } catch (const std::runtime_error&) { t = true; } symx_check(t, "no payload is refused"); t = false; try { ScalarData::deserialize("x", 0); } catch (const std::runtime_error&) { t = true; } symx_check(t, "an empty payload is refused"); symx_check(ScalarData::deserialize_selected_metadata(nullptr, 3, {"a"}).empty() && !ScalarData::deserialize_single_metadata_value("x", 0, "a"), "no payload has no metadata"); symx_reach("refused"); return; }
  if (mode == 2) {
    size_t sz = symx_pick(1, symx_param("size", 16), "size"); auto* p = new char[sz]; symx_bytes(p, sz, "buf"); bool ok = true; ScalarData r; try { r = ScalarData::deserialize(p, sz); } catch (const std::runtime_error&) { ok = false; }
    auto sel = ScalarData::deserialize_selected_metadata(p, sz, {"a", ""}); auto one = ScalarData::deserialize_single_metadata_value(p, sz, "a");
    if (ok) { symx_reach("accepted"); symx_check(r.serialized_size() <= sz, "an accepted payload contains everything it returned"); bool bad = false; for (auto& [k, v] : r.metadata) if (v.index() == 3) { uint8_t b; memcpy(&b, &std::get<3>(v), 1); bad |= b > 1; } if (!bad) { auto w = r.serialize(); auto r2 = ScalarData::deserialize(w.data(), w.size()); symx_check(r2.item_id == r.item_id && r2.document == r.document && r2.metadata.size() == r.metadata.size(), "an accepted payload is stable"); } } else symx_reach("refused");
    return;
  }
  ScalarData s; s.item_id = text("id", len); s.document = symx_bool("big") ? std::string(300, 'd') : text("doc", len);
  static const char* fixed[] = {"", "a", "bb"}; std::vector<std::string> keys;
  for (int i = 0; i < n; i++) { std::string k = i == 0 ? text("key", len) : std::string(fixed[symx_pick(0, 2, "fk")]); bool dup = false; for (auto& x : keys) dup |= x == k; if (dup) symx_end_path(); keys.push_back(k); s.metadata.emplace(k, value(len)); }
  auto w = s.serialize(); symx_check(w.size() == s.serialized_size(), "announced size is the written size");
  if (mode == 0) {
    auto r = ScalarData::deserialize(w.data(), w.size()); symx_check(r.item_id == s.item_id && r.document == s.document && r.metadata.size() == s.metadata.size(), "identity and document are read back");
    for (auto& k : keys) { auto it = r.metadata.find(k); symx_check(it != r.metadata.end() && same(it->second, s.metadata.at(k)), "every metadata value is read back with its type"); } symx_reach("roundtrip");
    std::unordered_set<std::string> want; std::vector<int> wi; for (int i = 0; i < n; i++) if (symx_bool("want")) { want.insert(keys[i]); wi.push_back(i); } bool missing = symx_bool("missing"); if (missing) want.insert("zzz");
    auto sel = ScalarData::deserialize_selected_metadata(w.data(), w.size(), want); symx_check(sel.size() == wi.size(), "only the requested fields are returned"); for (int i : wi) { auto it = sel.find(keys[i]); symx_check(it != sel.end() && same(it->second, s.metadata.at(keys[i])), "a requested field has its value"); symx_reach("selected"); }
    for (auto& k : keys) { auto v = ScalarData::deserialize_single_metadata_value(w.data(), w.size(), k); if (k.empty()) symx_check(!v, "the empty field name is never looked up"); else { symx_check(v && same(*v, s.metadata.at(k)), "single field lookup"); symx_reach("single"); } } symx_check(!ScalarData::deserialize_single_metadata_value(w.data(), w.size(), "zzz"), "an absent field has no value");
  } else {
    size_t cut = symx_pick(1, w.size() < 40 ? w.size() : 40, "cut"); size_t left = w.size() - cut; char* p = new char[left ? left : 1]; memcpy(p, w.data(), left); bool t = false; try { ScalarData::deserialize(p, left); } catch (const std::runtime_error&) { t = true; } symx_check(t, "a shortened payload is refused"); symx_reach("refused");
    std::unordered_set<std::string> want(keys.begin(), keys.end()); auto sel = ScalarData::deserialize_selected_metadata(p, left, want); for (auto& [k, v] : sel) symx_check(s.metadata.count(k) && same(v, s.metadata.at(k)), "a shortened payload never yields a wrong value");
    for (auto& k : keys) { auto v = ScalarData::deserialize_single_metadata_value(p, left, k); if (v) symx_check(same(*v, s.metadata.at(k)), "a shortened payload never yields a wrong value"); }
  }
}
