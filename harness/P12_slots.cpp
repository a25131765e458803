//@property P12
//@case ops4 mode=0 n=4 reach=fresh,reused,published,freed,reload
//@case ops6 thorough mode=0 n=6 time=900 reach=fresh,reused,published,freed,reload
//@case damaged mode=1 reach=accepted,refused
//@case faults mode=2 reach=refused
//@bound every sequence of up to 4 (thorough 6) of allocate, publish, free, save and reload, starting with 0 to 2 live slots; stored file with any header field replaced or cut at any byte of its head; every failing file operation of a save
//@assume only live slots are freed and only allocated ones published, as the index does
#include "symx.h"
#include "vfs.h"
#include <index/graph/diskann/slot_allocator.hpp>
using namespace alaya::diskann;
extern "C" void symx_main() {
  int mode = (int)symx_param("mode", 0), n = (int)symx_param("n", 4); vfs_put("/d/.k", "", 0);
  if (mode == 2) { auto& a = *new SlotAllocator(3); a.free(1); vfs.fail_at = vfs.ops + symx_pick(0, 8, "at"); vfs.fail_short = symx_pick(0, 1, "short") ? 5 : 0; vfs.fail_count = 2; bool ok = true; try { a.save("/d/s"); } catch (const std::exception&) { ok = false; } vfs.fail_at = ~0ull; if (ok) { auto& b = *new SlotAllocator(); bool l = true; try { b.load("/d/s"); } catch (const std::exception&) { l = false; } symx_check(l && b.next_fresh_id() == 3 && b.is_deleted(1) && b.free_count() == 1, "a save that reported success can be loaded"); } else symx_reach("refused"); return; }
  if (mode == 1) {
    auto& a = *new SlotAllocator(3); a.free(1); a.save("/d/s"); auto* d = vfs_data("/d/s"); auto& b = *new SlotAllocator(); bool ok = true; int f = symx_pick(0, 4, "field"); uint64_t v = 0;
    if (f < 3) { v = f == 0 ? symx_u64("magic") : symx_pick(0, 3, "v") + (symx_bool("big") ? (1ull << 32) - 2 : 0); memcpy(d->data() + 8 * f, &v, 8); } else if (f == 3) { d->resize(symx_pick(0, 40, "cut")); } 
    try { b.load("/d/s"); } catch (const std::exception&) { ok = false; }
    if (f == 4) symx_check(ok, "a sound file is accepted"); if (f == 0) symx_check(ok == (v == SlotAllocator::kMagic), "a foreign file is refused"); if (f == 1) { symx_check(ok == (v >> 32 == 0), "an impossible slot number is refused"); if (ok) symx_check(b.next_fresh_id() == v, "next slot"); } if (f == 2) symx_check(ok == (v == 1), "a wrong free count is refused"); if (f == 3) symx_check(!ok, "a shortened file is refused"); symx_reach(ok ? "accepted" : "refused"); return;
  }
  uint32_t start = symx_pick(0, 2, "start"); auto* a = new SlotAllocator(start); int st[16]; for (int i = 0; i < 16; i++) st[i] = i < (int)start ? 2 : 0; uint32_t next = start; // 0 unused, 1 dark, 2 live, 3 freed
  for (int i = 0; i < n; i++) {
    int op = symx_pick(0, 3, "op"); uint32_t id = 0; if (op == 1 || op == 2) { id = symx_pick(0, next ? next - 1 : 0, "id"); }
    if (op == 0) { bool anyFree = false; for (uint32_t k = 0; k < next; k++) anyFree |= st[k] == 3; id = a->alloc(); symx_check(id <= next, "slots are dense"); symx_check(anyFree ? id < next && st[id] == 3 : id == next, "a freed slot is reused before a new one is opened"); symx_check(id < 16 && (st[id] == 0 || st[id] == 3), "an allocated slot is not in use"); symx_reach(st[id] == 3 ? "reused" : "fresh"); if (id == next) next++; st[id] = 1; symx_check(a->is_deleted(id), "an allocated slot stays hidden until published"); }
    else if (op == 1) { if (id >= next || st[id] != 1) symx_end_path(); a->publish(id); st[id] = 2; symx_reach("published"); }
    else if (op == 2) { if (id >= next || st[id] == 3 || st[id] == 0) symx_end_path(); a->free(id); st[id] = 3; symx_reach("freed"); }
    else { a->save("/d/s"); auto* b = new SlotAllocator(symx_bool("other") ? 9 : 0); if (symx_bool("used")) { b->free(b->alloc()); b->publish(b->alloc()); b->alloc(); b->free(0); } b->load("/d/s"); symx_check(b->free_list() == a->free_list(), "the free list is restored in order"); a = b; symx_reach("reload"); }
    uint64_t fr = 0, dark = 0; for (uint32_t k = 0; k < 16; k++) { fr += st[k] == 3; dark += st[k] == 1 || st[k] == 3; symx_check(a->is_deleted(k) == (st[k] == 1 || st[k] == 3), "exactly freed and unpublished slots are hidden"); }
    symx_check(a->next_fresh_id() == next && a->free_count() == fr && a->tombstone_count() == dark, "counts");
  }
  a->reset(2); symx_check(a->next_fresh_id() == 2 && a->free_count() == 0 && a->tombstone_count() == 0 && a->alloc() == 2, "a reset allocator starts over");
}
