//@property P08
//@case single mode=0 reach=true,false
//@case single2 thorough mode=0 len=2 list=2 reach=true,false
//@case logic mode=1 reach=true,false
//@case nested mode=2 reach=true,false
//@case builder mode=3 reach=true,false
//@bound one or two fields of any type, every integer, double (NaN, infinities and signed zeros included), boolean and strings of 0..1 (thorough 2) arbitrary bytes; lists of up to 1 (thorough 2) values; filters with two conditions and one nested filter of one condition
#include "symx.h"
#include <utils/metadata_filter.hpp>
using namespace alaya;
static int LEN, LIST;
static std::string text(const char* n) { int l = symx_pick(0, LEN, "len"); std::string s(l, 0); for (auto& c : s) c = symx_u8(n); return s; }
static MetadataValue value(const char* n) { switch (symx_pick(0, 3, "type")) { case 0: return (int64_t)symx_u64(n); case 1: return symx_f64(n); case 2: return text(n); default: return symx_bool(n); } }
static bool eq(const MetadataValue& a, const MetadataValue& b) { if (a.index() != b.index()) return false; switch (a.index()) { case 0: return std::get<0>(a) == std::get<0>(b); case 1: return std::get<1>(a) == std::get<1>(b); case 2: return std::get<2>(a) == std::get<2>(b); default: return std::get<3>(a) == std::get<3>(b); } }
static bool lt(const MetadataValue& a, const MetadataValue& b) { switch (a.index()) { case 0: return std::get<0>(a) < std::get<0>(b); case 1: return std::get<1>(a) < std::get<1>(b); case 2: { auto &x = std::get<2>(a), &y = std::get<2>(b); for (size_t i = 0; i < x.size() && i < y.size(); i++) if (x[i] != y[i]) return (unsigned char)x[i] < (unsigned char)y[i]; return x.size() < y.size(); } default: return !std::get<3>(a) && std::get<3>(b); } }
static bool sub(const std::string& h, const std::string& n) { if (n.size() > h.size()) return false; for (size_t i = 0; i + n.size() <= h.size(); i++) { bool m = true; for (size_t j = 0; j < n.size(); j++) m &= h[i + j] == n[j]; if (m) return true; } return false; }
static bool ref(const FilterCondition& c, const MetadataMap& m) {
  auto it = m.find(c.field); if (it == m.end()) return false; const auto& a = it->second; const auto& b = c.value; bool st = a.index() == b.index(), in = false; for (auto& v : c.values) in |= eq(a, v);
  switch (c.op) { case FilterOp::EQ: return eq(a, b); case FilterOp::NE: return !eq(a, b); case FilterOp::GT: return st && lt(b, a); case FilterOp::GE: return st && (lt(b, a) || eq(a, b)); case FilterOp::LT: return st && lt(a, b); case FilterOp::LE: return st && (lt(a, b) || eq(a, b)); case FilterOp::IN_SET: return in; case FilterOp::NOT_IN_SET: return !in; default: return a.index() == 2 && b.index() == 2 && sub(std::get<2>(a), std::get<2>(b)); }
}
static FilterCondition cond(const char* f) { FilterCondition c; c.field = f; c.op = (FilterOp)symx_pick(0, 8, "op"); if (c.op == FilterOp::IN_SET || c.op == FilterOp::NOT_IN_SET) { int n = symx_pick(0, LIST, "list"); for (int i = 0; i < n; i++) c.values.push_back(value("lv")); } else c.value = value("v"); return c; }
// small conditions whose truth is a symbolic bit
static FilterCondition bit(const char* f) { FilterCondition c; c.field = f; c.op = FilterOp::EQ; c.value = int64_t(1); return c; }
static void judge(bool got, bool want) { symx_check(got == want, "the filter decides as documented"); symx_reach(want ? "true" : "false"); }
extern "C" void symx_main() {
  int mode = (int)symx_param("mode", 0); LEN = (int)symx_param("len", 1); LIST = (int)symx_param("list", 1); MetadataMap m; MetadataFilter f;
  if (mode == 0) { bool has = symx_bool("has"); if (has) m.emplace("a", value("x")); m.emplace("zz", int64_t(5)); auto c = cond("a"); bool w = ref(c, m); judge(c.evaluate(m), w); f.conditions.push_back(c); f.logic_op = symx_bool("or") ? LogicOp::OR : LogicOp::AND; judge(f.evaluate(m), w); f.logic_op = LogicOp::NOT; judge(f.evaluate(m), !w); return; }
  bool t[4]; const char* nm[] = {"a", "b", "c", "d"}; for (int i = 0; i < 4; i++) { t[i] = symx_bool("t"); if (symx_bool("present")) m.emplace(nm[i], int64_t(t[i] ? 1 : 0)); else t[i] = false; }
  if (mode == 3) {
    MetadataFilter e = MetadataFilter::empty(); symx_check(e.is_empty() && e.evaluate(m), "an empty filter matches everything"); MetadataValue v = value("v"), x = value("x"); m["a"] = x; FilterCondition c; c.field = "a"; c.value = v;
    switch (symx_pick(0, 5, "b")) { case 0: f.add_eq("a", v); c.op = FilterOp::EQ; break; case 1: f.add_gt("a", v); c.op = FilterOp::GT; break; case 2: f.add_ge("a", v); c.op = FilterOp::GE; break; case 3: f.add_lt("a", v); c.op = FilterOp::LT; break; case 4: f.add_le("a", v); c.op = FilterOp::LE; break; default: f.add_in("a", {v, int64_t(3)}); c.op = FilterOp::IN_SET; c.values = {v, int64_t(3)}; }
    bool w = ref(c, m); judge(f.evaluate(m), w); MetadataFilter outer; outer.logic_op = LogicOp::NOT; outer.add_sub_filter(f); judge(outer.evaluate(m), !w); return;
  }
  int nc = symx_pick(0, 2, "nc"), ns = symx_pick(0, 2, "ns"); f.logic_op = (LogicOp)symx_pick(0, 2, "logic"); std::vector<bool> r;
  for (int i = 0; i < nc; i++) { f.conditions.push_back(bit(nm[i])); r.push_back(t[i]); }
  for (int i = 0; i < ns; i++) { MetadataFilter s; int k = symx_pick(0, 2, "k"); s.logic_op = (LogicOp)symx_pick(0, 2, "sl"); bool v = k == 0; if (k > 0) { s.conditions.push_back(bit(nm[2 + i])); v = t[2 + i]; } if (k > 1) { if (mode == 2) { MetadataFilter q; q.logic_op = LogicOp::NOT; q.conditions.push_back(bit(nm[3 - i])); s.add_sub_filter(q); bool u = !t[3 - i]; v = s.logic_op == LogicOp::AND ? v && u : s.logic_op == LogicOp::OR ? v || u : !v; } else { s.conditions.push_back(bit(nm[0])); v = s.logic_op == LogicOp::AND ? v && t[0] : s.logic_op == LogicOp::OR ? v || t[0] : !v; } } else if (k == 1 && s.logic_op == LogicOp::NOT) v = !v; f.add_sub_filter(s); r.push_back(v); }
  bool w = true; if (!r.empty()) { if (f.logic_op == LogicOp::AND) { for (bool b : r) w = w && b; } else if (f.logic_op == LogicOp::OR) { w = false; for (bool b : r) w = w || b; } else w = !r[0]; } judge(f.evaluate(m), w);
}
