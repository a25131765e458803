//@property P20
//@native no
//@case handles mode=0 reach=held,freed
//@case content mode=1 reach=refused,opened
//@case create-create mode=2 --preempt 2 reach=first,second
//@case open-open mode=3 --preempt 2 reach=first,second
//@case create-open mode=4 --preempt 3 reach=refused
//@case reopen-race mode=5 --preempt 2 reach=got,refused
//@bound two handles or two threads on one collection path; every file system call is a scheduling point, at most 2 preemptions; 8 arbitrary bytes in the lock file
//@assume advisory file locks work as on Linux: one holder per open file, released when it is closed
#include "symx.h"
#include "vfs.h"
#include <memory>
#include <string>
#include <thread>
#include <index/disk/disk_collection.hpp>
using namespace alaya; using namespace alaya::disk;
typedef std::unique_ptr<DiskCollection> U;
static U create() { U u; symx_attempt([&] { u = std::make_unique<DiskCollection>("/d/c", 1, MetricType::L2, DiskIndexType::Flat); }); return u; }
static U open() { U u; symx_attempt([&] { u = std::make_unique<DiskCollection>(DiskCollection::open("/d/c")); }); return u; }
static void works(DiskCollection& c, uint64_t rows) { symx_check(c.size() == rows, "the holder sees the stored rows"); float v = 1; uint64_t l = 77 + rows; c.add_batch(&v, &l, 1); c.flush(); symx_check(c.size() == rows + 1, "the holder can write"); }
extern "C" void symx_main() {
  int mode = (int)symx_param("mode", 0); vfs_put("/d/x", "x", 1);
  if (mode == 0) {
    U a = create(); symx_check(!!a, "a new collection can be created"); bool viaOpen = symx_bool("viaOpen"); if (viaOpen) { a.reset(); a = open(); symx_check(!!a, "a closed collection can be opened"); }
    int tries = symx_pick(1, 2, "tries"); for (int i = 0; i < tries; i++) symx_check(symx_bool("op") ? !open() : !create(), "a collection that is open cannot be opened or created again"); int n = vfs_open_count();
    if (symx_bool("move")) { U b = std::make_unique<DiskCollection>(std::move(*a)); a.reset(); symx_check(!open(), "a moved handle keeps the collection"); if (symx_bool("over")) { U o; symx_attempt([&] { o = std::make_unique<DiskCollection>("/d/o", 1, MetricType::L2, DiskIndexType::Flat); }); symx_check(!!o, "another collection"); *o = std::move(*b); b.reset(); U again; symx_attempt([&] { again = std::make_unique<DiskCollection>(DiskCollection::open("/d/o")); }); symx_check(!!again, "assigning over a handle releases the collection it held"); again.reset(); a = std::move(o); } else a = std::move(b); } works(*a, 0); symx_check(vfs_open_count() == n, "no file stays open after an operation"); symx_check(!open(), "still held after writing"); symx_reach("held");
    a.reset(); symx_check(!create(), "an existing collection is never created over"); U c = open(); symx_check(!!c, "a released collection can be opened"); if (c) works(*c, 1); symx_reach("freed");
  } else if (mode == 1) {
    { U a = create(); works(*a, 0); } std::string s(8, 0); for (auto& c : s) c = symx_u8("c"); vfs_put("/d/c/.lock", s.data(), s.size()); U a = open(); symx_check(!!a, "left-over lock file contents do not matter"); vfs_put("/d/c/.lock", s.data(), s.size()); U b; int rc = symx_attempt([&] { b = std::make_unique<DiskCollection>(DiskCollection::open("/d/c")); }); symx_check(rc == 2 && !b, "a second open is refused whatever the lock file holds"); symx_reach("refused"); if (a) works(*a, 1); symx_reach("opened");
  } else {
    if (mode == 3 || mode == 5) { U a = create(); works(*a, 0); } U x, y; bool overlap = false; vfs.mt = true;
    auto thread1 = [&] { if (mode == 2 || mode == 4) x = create(); else { x = open(); if (mode == 5 && x) { works(*x, 1); x.reset(); } } };
    std::thread t(thread1); if (mode == 2) y = create(); else y = open(); t.join(); vfs.mt = false; (void)overlap;
    if (mode == 2) { symx_check(!!x != !!y, "of two concurrent creations exactly one succeeds"); symx_reach(x ? "first" : "second"); U& w = x ? x : y; if (w) { works(*w, 0); w.reset(); U r = open(); symx_check(!!r && r->size() == 1, "the created collection is complete"); } }
    else if (mode == 3) { symx_check(!!x != !!y, "of two concurrent opens exactly one succeeds"); symx_reach(x ? "first" : "second"); U& w = x ? x : y; if (w) works(*w, 1); }
    else if (mode == 4) { symx_check(!(x && y), "a collection is never held twice"); if (x) { works(*x, 0); symx_reach(y ? "opened" : "refused"); } else if (y) { works(*y, 0); symx_reach("opened"); } else symx_reach("early"); if (y) symx_reach("opened"); }
    else { if (y) { works(*y, y->size()); symx_check(y->size() == 2 || y->size() == 3, "an open sees a state that was flushed"); symx_reach("got"); } else symx_reach("refused"); y.reset(); U r = open(); symx_check(!!r && (r->size() == 2 || r->size() == 3), "nothing that was flushed is lost"); }
  }
}
