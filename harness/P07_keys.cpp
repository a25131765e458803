//@property P07
//@case int mode=0 reach=less,equal,greater
//@case double mode=1 reach=less,equal,greater
//@case decode mode=2 reach=decoded
//@case id mode=3 reach=decoded
//@bound every pair of 64-bit integers; every pair of double bit patterns without NaN; record ids of 32 and 64 bits around every decimal length; one field name and value of 0..2 arbitrary bytes
#include "symx.h"
#include <cstring>
#include <utils/index_encoding.hpp>
using namespace alaya; using namespace alaya::index_encoding;
static int sgn(int c) { return c < 0 ? -1 : c > 0; }
extern "C" void symx_main() {
  int mode = (int)symx_param("mode", 0);
  if (mode == 0) {
    int64_t a = symx_u64("a"), b = symx_u64("b"); auto x = encode_int64(a), y = encode_int64(b); symx_check(x.size() == 16 && y.size() == 16, "keys have one width");
    int c = sgn(memcmp(x.data(), y.data(), 16)); symx_check((c < 0) == (a < b), "key order is numeric order"); symx_check((c == 0) == (a == b), "equal keys mean equal numbers"); symx_reach(c < 0 ? "less" : c > 0 ? "greater" : "equal");
  } else if (mode == 1) {
    double a = symx_f64("a"), b = symx_f64("b"); symx_assume(a == a && b == b); auto x = encode_double(a), y = encode_double(b); int c = sgn(memcmp(x.data(), y.data(), 16));
    if (c < 0) symx_check(a <= b, "key order follows numeric order"); if (c > 0) symx_check(a >= b, "key order follows numeric order"); if (c == 0) symx_check(a == b, "equal keys mean equal numbers"); symx_reach(c < 0 ? "less" : c > 0 ? "greater" : "equal");
  } else if (mode == 2) {
    if (symx_bool("int")) { int64_t a = symx_u64("a"); symx_check(decode_int64(encode_int64(a)) == a, "integers decode to themselves"); } else { double a = symx_f64("a"); double r = decode_double(encode_double(a)); uint64_t p, q; memcpy(&p, &a, 8); memcpy(&q, &r, 8); symx_check(p == q, "doubles decode to the same bits"); } symx_reach("decoded");
  } else {
    uint64_t b = 1; for (int i = symx_pick(0, 19, "dec"); i-- > 0;) b *= 10; uint64_t id = b - 2 + symx_pick(0, 3, "low"); if (symx_bool("top")) id = ~0ull - symx_pick(0, 2, "off");
    int fl = symx_pick(1, 2, "flen"), vl = symx_pick(0, 2, "vlen"); std::string f(fl, 0), v(vl, 0); for (auto& c : f) c = symx_u8("f"); for (auto& c : v) c = symx_u8("v");
    auto e = encode_value(MetadataValue(v)); auto k = make_field_index_key<uint64_t>(f, e, id); symx_check(extract_id_from_key<uint64_t>(k) == id, "the id is read back from its key"); symx_check(k.compare(0, make_field_index_prefix(f, e).size(), make_field_index_prefix(f, e)) == 0 && k.compare(0, make_field_prefix(f).size(), make_field_prefix(f)) == 0, "a key is found under its prefixes");
    symx_check(extract_id_from_key<uint32_t>(make_field_index_key<uint32_t>(f, e, (uint32_t)id)) == (uint32_t)id, "the id is read back from its key"); symx_reach("decoded");
  }
}
