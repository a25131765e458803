//@property P11
//@case ops2 mode=0 n=2 reach=set,cleared,grown,reload
//@case ops3 thorough mode=0 n=3 time=900 reach=set,cleared,grown,reload
//@case damaged mode=1 reach=accepted,refused
//@case shortened mode=2 reach=refused
//@case readers mode=3 --preempt 2 reach=seen,unseen
//@case faults mode=4 reach=refused
//@bound sequences of up to 2 (thorough 3) marks and unmarks of arbitrary slots out of both sides of every word and chunk boundary of a growing set of 70 to 200000 slots; stored file with any 8-byte header field replaced by any value or cut at any sampled length; every failing file operation of a save; one writer and one reader thread with up to 2 preemptions
//@assume changes are made under the caller's update lock, as the index does
#include "symx.h"
#include "vfs.h"
#include <thread>
#include <index/graph/diskann/tombstone_bitmap.hpp>
using namespace alaya::diskann;
typedef TombstoneBitmap T;
static const uint64_t slots[] = {0, 63, 64, 65535, 65536, 131071, 200000};
extern "C" void symx_main() {
  int mode = (int)symx_param("mode", 0), n = (int)symx_param("n", 3); vfs_put("/d/.k", "", 0);
  if (mode == 0) {
    auto& t = *new T(70); bool del[7] = {}; bool sym[64] = {}; uint64_t cnt = 0;
    for (int i = 0; i < n; i++) { int k = symx_pick(0, i == 0 ? 7 : 6, "k"); bool on = symx_bool("on"); uint64_t id; bool was; if (k == 7) { id = symx_range(0, 60, "id"); uint64_t x = id; was = false; for (int j = 0; j < 64; j++) was |= sym[j] & (x == (uint64_t)j); if (x == 0) was = del[0]; symx_assume(x != 0); for (int j = 0; j < 64; j++) sym[j] = x == (uint64_t)j ? on : sym[j]; } else { id = slots[k]; was = del[k]; del[k] = on; }
      if (on) { t.set(id); cnt += !was; symx_reach("set"); if (id >= 65536) symx_reach("grown"); } else { t.clear(id); cnt -= was; symx_reach("cleared"); }
      symx_check(t.is_deleted(id) == on, "a mark is visible at once"); symx_check(t.count() == cnt, "the count is the number of marked slots"); }
    auto judge = [&](auto& q) { for (int k = 0; k < 7; k++) symx_check(q.is_deleted(slots[k]) == del[k], "exactly the marked slots are deleted"); uint64_t a = symx_range(1, 60, "any"); bool w = false; for (int j = 0; j < 64; j++) w |= sym[j] & (a == (uint64_t)j); symx_check(q.is_deleted(a) == w, "exactly the marked slots are deleted"); symx_check(!q.is_deleted(~0ull) && !q.is_deleted(1ull << 40), "unknown slots are not deleted"); };
    judge(t); TombstoneSnapshot s; s.reset(3); t.snapshot_into(s); judge(s); symx_check(s.capacity() >= 70, "a snapshot covers every slot"); t.set(5); symx_check(s.is_deleted(5) == sym[5], "a snapshot does not follow later changes"); if (!sym[5]) t.clear(5);
    t.save("/d/t"); auto& u = *new T(300); u.set(7); u.set(250); if (symx_bool("bigger")) { u.set(131072); u.set(200001); } u.load("/d/t"); judge(u); symx_check(u.count() == cnt, "the count is restored"); symx_check(u.capacity() == t.capacity(), "the capacity is restored"); symx_check(!u.is_deleted(200001) && !u.is_deleted(131072), "nothing marked before a reload stays marked"); symx_reach("reload");
    u.reset(10); symx_check(u.count() == 0 && !u.is_deleted(63) && !u.is_deleted(65536), "a reset set is empty");
  } else if (mode == 3) {
    auto& t = *new T(70); bool x = false, y = false; std::atomic<bool> done{false}; std::thread r([&] { bool fin = done.load(std::memory_order_acquire); x = t.is_deleted(65540); y = t.is_deleted(3); if (fin) { symx_check(x && y, "a finished mark is visible to a later reader"); symx_reach("seen"); } else symx_reach("unseen"); symx_check(!t.is_deleted(65541) && !t.is_deleted(70000), "an unmarked slot is never reported deleted while the set grows"); });
    t.set(3); t.set(65540); done.store(true, std::memory_order_release); r.join();
  } else if (mode == 4) {
    auto& t = *new T(70); t.set(3); t.set(69); vfs.fail_at = vfs.ops + symx_pick(0, 8, "at"); vfs.fail_short = symx_pick(0, 1, "short") ? 5 : 0; vfs.fail_count = 2; bool ok = true; try { t.save("/d/t"); } catch (const std::exception&) { ok = false; } vfs.fail_at = ~0ull; if (ok) { auto& u = *new T(); bool l = true; try { u.load("/d/t"); } catch (const std::exception&) { l = false; } symx_check(l && u.count() == 2 && u.is_deleted(3) && u.is_deleted(69), "a save that reported success can be loaded"); } else symx_reach("refused");
  } else {
    auto& t = *new T(70); t.set(3); t.set(69); t.save("/d/t"); auto* d = vfs_data("/d/t"); auto& u = *new T(); bool ok = true;
    if (mode == 1) { int f = symx_pick(0, 2, "field"); uint64_t v = symx_u64("v"); if (f == 1) { uint64_t top = symx_pick(0, 4, "top"); static const uint64_t b[] = {0, 1ull << 20, 1ull << 57, 1ull << 58, ~0ull - 3}; v = b[top] + symx_pick(0, 3, "low") * (top == 1 ? 1ull << 30 : 1); if (top == 1 && v <= (1ull << 26)) symx_end_path(); } memcpy(d->data() + 8 * f, &v, 8);
      try { u.load("/d/t"); } catch (const std::exception&) { ok = false; } if (ok) { symx_reach("accepted"); if (f == 2) { uint64_t a = symx_range(0, 63, "bit"); symx_check(u.is_deleted(a) == (bool)(v >> a & 1), "words are read exactly"); symx_check(u.is_deleted(69), "words are read exactly"); symx_check(u.count() == 1 + (uint64_t)__builtin_popcountll(v), "the count follows the words"); } u.is_deleted(63); } else { symx_check(f != 2, "a sound file is accepted"); symx_reach("refused"); }
    } else { static const size_t cut[] = {0, 1, 7, 8, 15, 16, 17, 4096, 8191, 8192, 8207}; d->resize(cut[symx_pick(0, 10, "cut")]); try { u.load("/d/t"); } catch (const std::exception&) { ok = false; } symx_check(!ok, "a shortened file is refused"); symx_reach("refused"); ok = true; try { u.load("/d/absent"); } catch (const std::exception&) { ok = false; } symx_check(!ok, "a missing file is refused"); }
  }
}
