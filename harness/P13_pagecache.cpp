//@property P13
//@case ops4 n=4 reach=hit,miss,evicted,flushed
//@case ops5 thorough n=5 time=900 reach=hit,miss,evicted,flushed
//@case ops6 thorough n=6 cap=2 time=900 reach=hit,miss,evicted,flushed
//@bound sequences of 4 (thorough 6) reads, updates, clean fills and flushes over 3 pages in a cache of 0 to 2 pages (and a larger one), arbitrary page contents
//@assume a clean fill carries the page's newest bytes
#include "symx.h"
#include <vector>
#include <index/graph/diskann/disk_page_cache.hpp>
using namespace alaya::diskann;
static const size_t PS = 4;
extern "C" void symx_main() {
  int n = (int)symx_param("n", 4), fixed = (int)symx_param("cap", -1); size_t cap = fixed >= 0 ? fixed : symx_pick(0, 3, "cap"); DiskPageCache c(cap); symx_check(c.enabled() == (cap > 0), "a cache of no pages is off");
  uint8_t disk[3][PS], truth[3][PS]; for (int p = 0; p < 3; p++) for (size_t i = 0; i < PS; i++) disk[p][i] = truth[p][i] = (uint8_t)(p * 16 + i);
  const uint64_t off[3] = {4096, 8192, 1ull << 40}; int mru[3] = {-1, -1, -1}; auto touch = [&](int p) { int i = 0; while (i < 2 && mru[i] != p) i++; for (; i > 0; i--) mru[i] = mru[i - 1]; mru[0] = p; };
  auto flush = [&](uint64_t o, const char* b) { int p = o == off[0] ? 0 : o == off[1] ? 1 : o == off[2] ? 2 : -1; symx_check(p >= 0, "only known pages are written back"); memcpy(disk[p], b, PS); symx_reach("flushed"); };
  auto same = [&](const uint8_t* a, const uint8_t* b) { bool r = true; for (size_t i = 0; i < PS; i++) r &= a[i] == b[i]; return r; };
  auto resident = [&](int p) { for (size_t i = 0; i < cap && i < 3; i++) if (mru[i] == p) return true; return false; };
  for (int i = 0; i < n; i++) {
    int op = symx_pick(0, 3, "op"), p = op == 3 ? 0 : (int)symx_pick(0, 2, "page"); uint8_t buf[PS];
    if (op == 0) { bool hit = c.read(off[p], (char*)buf, PS); symx_check(hit == resident(p), "the most recently used pages, and only those, are cached"); if (hit) { symx_check(same(buf, truth[p]), "a cached page is the newest version"); touch(p); symx_reach("hit"); } else { symx_check(same(disk[p], truth[p]), "a page that left the cache is up to date on disk"); symx_reach("miss"); } }
    else if (op == 1) { if (!c.enabled()) symx_end_path(); for (size_t j = 0; j < PS; j += 3) truth[p][j] = symx_u8("byte"); memcpy(buf, truth[p], PS); c.write(off[p], (char*)buf, PS, true, flush); memset(buf, 0, PS); if (!resident(p) && cap < 3 && mru[cap - 1] >= 0) symx_reach("evicted"); touch(p); }
    else if (op == 2) { if (!resident(p) && !same(disk[p], truth[p])) symx_fail("a page that left the cache is up to date on disk"); memcpy(buf, truth[p], PS); c.write(off[p], (char*)buf, PS, false, flush); touch(p); }
    else { c.flush_dirty(flush); for (int q = 0; q < 3; q++) symx_check(same(disk[q], truth[q]), "after a flush the disk holds every update"); int cnt = 0; c.flush_dirty([&](uint64_t, const char*) { cnt++; }); symx_check(cnt == 0, "a second flush has nothing to write"); }
  }
  c.flush_dirty(flush); for (int q = 0; q < 3; q++) symx_check(same(disk[q], truth[q]), "after a flush the disk holds every update");
  for (int q = 0; q < 3; q++) { uint8_t b[PS]; bool r = resident(q); bool hit = c.read(off[q], (char*)b, PS); symx_check(hit == r, "the most recently used pages, and only those, are cached"); if (hit) { touch(q); symx_check(same(b, truth[q]), "a cached page is the newest version"); } }
}
