#include "vfs.h"
#include "symx.h"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/file.h>
#include <sys/syscall.h>
#include <map>
#include <memory>
namespace {
struct Node { bool dir = false; std::vector<uint8_t> data, synced; bool dirty = false; uint64_t ino = 0; int lockOwner = -1; };
typedef Node* NP; // never freed: no atomic counts, so no scheduling point inside a call
typedef std::map<std::string, NP> NS;
struct NsOp { int kind; std::string a, b; NP n; }; // 1 add(a,n) 2 del(a) 3 rename(a->b)
struct Fd { bool used = false; NP n; std::string path; uint64_t off = 0; int flags = 0; };
struct Fs { NS live, dur; std::vector<NsOp> journal; std::vector<Fd> fds; uint64_t ino = 10; };
Fs* F = nullptr;
Fs& fs() { if (!F) { F = new Fs; for (auto p : {"/", "/tmp"}) { NP n = new Node; n->dir = true; n->ino = F->ino++; F->live[p] = n; F->dur[p] = n; } } return *F; }
std::string norm(const char* c) {
  std::string r; const char* p = c; if (*p != '/') r = "";
  while (*p) { while (*p == '/') p++; const char* q = p; while (*q && *q != '/') q++; size_t n = q - p; if (n == 0) break; if (n == 1 && p[0] == '.') { p = q; continue; } if (n == 2 && p[0] == '.' && p[1] == '.') { size_t k = r.rfind('/'); r.resize(k == std::string::npos ? 0 : k); p = q; continue; } r += '/'; r.append(p, n); p = q; }
  if (r.empty()) r = "/"; return r;
}
std::string parent(const std::string& p) { size_t k = p.rfind('/'); return k == 0 ? std::string("/") : p.substr(0, k); }
NP find(const std::string& p) { auto it = fs().live.find(p); return it == fs().live.end() ? nullptr : it->second; }
int err(int e) { errno = e; return -1; }
[[noreturn]] void crashNow() { vfs.crashed = true; symx_abort_try(77); }
// start of a mutating operation: 0 proceed, 1 fail it
int op() {
  uint64_t k = vfs.ops++;
  if (k == vfs.crash_at) return 2;
  if (k >= vfs.fail_at && k - vfs.fail_at < vfs.fail_count) { vfs.failed = true; return 1; }
  return 0;
}
int simpleOp() { int r = op(); if (r == 2) crashNow(); return r; }
int newFd(NP n, const std::string& p, int fl) { auto& v = fs().fds; for (size_t i = 3; i < v.size(); i++) if (!v[i].used) { v[i] = Fd{true, n, p, 0, fl}; return i; } while (v.size() < 3) v.push_back(Fd{}); v.push_back(Fd{true, n, p, 0, fl}); return v.size() - 1; }
Fd* fd(int i) { auto& v = fs().fds; if (i < 3 || (size_t)i >= v.size() || !v[i].used) { errno = EBADF; return nullptr; } return &v[i]; }
ssize_t doWrite(Fd* f, const void* p, size_t n, uint64_t off) {
  if (n == 0) return 0;
  int r = op(); if (r) vfs.in_write = true; size_t k = n; if (r == 2) k = vfs.torn < n ? vfs.torn : n; if (r == 1) k = vfs.fail_short < n ? vfs.fail_short : 0;
  auto& d = f->n->data; if (k) { if (d.size() < off + k) d.resize(off + k, 0); memcpy(d.data() + off, p, k); f->n->dirty = true; }
  if (r == 2) crashNow(); if (r == 1) { if (k) return (ssize_t)k; return err(vfs.fail_errno); } return (ssize_t)n;
}
void addEntry(const std::string& p, NP n) { fs().live[p] = n; fs().journal.push_back({1, p, "", n}); }
bool hasPrefix(const std::string& s, const std::string& pre) { return s.size() > pre.size() && s.compare(0, pre.size(), pre) == 0 && s[pre.size()] == '/'; }
void nsRename(NS& ns, const std::string& a, const std::string& b) {
  auto it = ns.find(a); if (it == ns.end()) return; NP n = it->second; ns.erase(it); ns[b] = n;
  if (n->dir) { std::vector<std::pair<std::string, NP>> mv; for (auto& [p, q] : ns) if (hasPrefix(p, a)) mv.push_back({p, q}); for (auto& m : mv) { ns.erase(m.first); ns[b + m.first.substr(a.size())] = m.second; } }
}
void applyNs(NS& ns, const NsOp& o) { if (o.kind == 1) ns[o.a] = o.n; else if (o.kind == 2) ns.erase(o.a); else nsRename(ns, o.a, o.b); }
void statOf(NP n, struct stat* s) { memset(s, 0, sizeof *s); s->st_mode = n->dir ? (S_IFDIR | 0755) : (S_IFREG | 0644); s->st_size = n->data.size(); s->st_ino = n->ino; s->st_dev = 1; s->st_nlink = 1; s->st_blksize = 4096; s->st_uid = 0; }
int doRename(const char* a0, const char* b0, bool noReplace) {
  std::string a = norm(a0), b = norm(b0); NP n = find(a); if (!n) return err(ENOENT); NP t = find(b); if (!find(parent(b))) return err(ENOENT);
  if (t && noReplace) return err(EEXIST);
  if (t) { if (n->dir && !t->dir) return err(ENOTDIR); if (!n->dir && t->dir) return err(EISDIR); if (t->dir) for (auto& [p, q] : fs().live) if (hasPrefix(p, b)) return err(ENOTEMPTY); }
  if (n->dir && hasPrefix(b, a)) return err(EINVAL);
  if (simpleOp()) return err(vfs.fail_errno);
  if (a == b) return 0; nsRename(fs().live, a, b); fs().journal.push_back({3, a, b, n}); return 0;
}
}
VfsCtl vfs;
void vfs_reset() { delete F; F = nullptr; vfs = VfsCtl{}; }
int vfs_step() { int r = op(); if (r == 2 && vfs.torn == 0) crashNow(); return r; }
void vfs_step_done(int r) { if (r == 2) crashNow(); }
int vfs_open_count() { int c = 0; for (auto& f : fs().fds) c += f.used; return c; }
bool vfs_exists(const std::string& p) { return find(norm(p.c_str())) != nullptr; }
bool vfs_is_dir(const std::string& p) { NP n = find(norm(p.c_str())); return n && n->dir; }
std::vector<uint8_t>* vfs_data(const std::string& p) { NP n = find(norm(p.c_str())); return n ? &n->data : nullptr; }
void vfs_put(const std::string& p0, const void* q, size_t n) { std::string p = norm(p0.c_str()); std::vector<std::string> ps; for (std::string d = parent(p); !find(d); d = parent(d)) ps.push_back(d); while (!ps.empty()) { NP x = new Node; x->dir = true; x->ino = fs().ino++; fs().live[ps.back()] = x; fs().dur[ps.back()] = x; ps.pop_back(); } NP x = find(p); if (!x) { x = new Node; x->ino = fs().ino++; fs().live[p] = x; fs().dur[p] = x; } x->data.assign((const uint8_t*)q, (const uint8_t*)q + n); x->synced = x->data; x->dirty = false; }
std::vector<std::string> vfs_list(const std::string& d0) { std::string d = norm(d0.c_str()); std::vector<std::string> r; for (auto& [p, n] : fs().live) if (p != "/" && parent(p) == d) r.push_back(p.substr(d == "/" ? 1 : d.size() + 1)); return r; }
std::vector<std::string> vfs_all() { std::vector<std::string> r; for (auto& [p, n] : fs().live) r.push_back(p + (n->dir ? "/" : "")); return r; }
void vfs_crash_recover() {
  Fs& f = fs(); for (auto& d : f.fds) d = Fd{}; for (auto& [p, n] : f.live) n->lockOwner = -1;
  if (vfs.crash_kind == VFS_POWER) {
    // directory updates persist in order up to a symbolic point; unsynced file contents revert, stay, or are cut short
    uint64_t keep = f.journal.empty() ? 0 : symx_pick(0, f.journal.size(), "power_ns_kept");
    NS ns = f.dur; for (uint64_t i = 0; i < keep; i++) applyNs(ns, f.journal[i]); f.live = ns;
    for (auto& [p, n] : f.live) if (!n->dir && n->dirty) { uint64_t m = symx_pick(0, 2, "power_data"); if (m == 0) n->data = n->synced; else if (m == 2) { size_t lo = n->synced.size() < n->data.size() ? n->synced.size() : 0; n->data.resize(lo + (n->data.size() - lo) / 2); } n->synced = n->data; n->dirty = false; }
    f.dur = f.live; f.journal.clear();
  }
  vfs.crash_at = ~0ULL; vfs.fail_at = ~0ULL; vfs.fail_ropen_at = ~0ULL;
}
#include <atomic>
std::atomic<int> vfsPoint; static inline void pt() { if (vfs.mt) (void)vfsPoint.load(); }
extern "C" {
int symx_open(const char* p0, int fl, ...) { pt();
  std::string p = norm(p0); NP n = find(p);
  if (!n) {
    if (!(fl & O_CREAT)) return err(ENOENT); NP d = find(parent(p)); if (!d) return err(ENOENT); if (!d->dir) return err(ENOTDIR);
    if (simpleOp()) return err(vfs.fail_errno);
    n = new Node; n->ino = fs().ino++; addEntry(p, n);
  } else {
    if ((fl & O_CREAT) && (fl & O_EXCL)) return err(EEXIST);
    if ((fl & O_ACCMODE) == O_RDONLY && vfs.ropens++ == vfs.fail_ropen_at) { vfs.failed = true; return err(EMFILE); }
    if ((fl & O_DIRECTORY) && !n->dir) return err(ENOTDIR); if (n->dir && (fl & O_ACCMODE) != O_RDONLY) return err(EISDIR);
    if ((fl & O_TRUNC) && (fl & O_ACCMODE) != O_RDONLY && !n->data.empty()) { if (simpleOp()) return err(vfs.fail_errno); n->data.clear(); n->dirty = true; }
  }
  return newFd(n, p, fl);
}
int symx_close(int i) { pt(); Fd* f = fd(i); if (!f) return -1; if (f->n->lockOwner == i) f->n->lockOwner = -1; *f = Fd{}; return 0; }
ssize_t symx_pread(int i, void* b, size_t n, off_t o) { pt(); Fd* f = fd(i); if (!f) return -1; if (f->n->dir) return err(EISDIR); auto& d = f->n->data; if (o < 0) return err(EINVAL); if ((uint64_t)o >= d.size()) return 0; size_t k = d.size() - o; if (k > n) k = n; memcpy(b, d.data() + o, k); return (ssize_t)k; }
ssize_t symx_read(int i, void* b, size_t n) { Fd* f = fd(i); if (!f) return -1; ssize_t r = symx_pread(i, b, n, f->off); if (r > 0) f->off += r; return r; }
ssize_t symx_write(int i, const void* b, size_t n) { pt(); Fd* f = fd(i); if (!f) return -1; if ((f->flags & O_ACCMODE) == O_RDONLY) return err(EBADF); if (f->flags & O_APPEND) f->off = f->n->data.size(); ssize_t r = doWrite(f, b, n, f->off); if (r > 0) f->off += r; return r; }
ssize_t symx_pwrite(int i, const void* b, size_t n, off_t o) { pt(); Fd* f = fd(i); if (!f) return -1; if ((f->flags & O_ACCMODE) == O_RDONLY) return err(EBADF); return doWrite(f, b, n, o); }
off_t symx_lseek(int i, off_t o, int w) { Fd* f = fd(i); if (!f) return -1; int64_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (int64_t)f->off : (int64_t)f->n->data.size(); if (b + o < 0) return err(EINVAL); f->off = b + o; return f->off; }
int symx_fsync(int i) { pt();
  Fd* f = fd(i); if (!f) return -1; if (simpleOp()) return err(vfs.fail_errno);
  if (f->n->dir) { Fs& s = fs(); std::string d = f->path; std::vector<NsOp> rest; bool blocked = false; for (auto& o : s.journal) { bool mine = parent(o.a) == d || (o.kind == 3 && parent(o.b) == d); (void)blocked; if (mine) applyNs(s.dur, o); else rest.push_back(o); } s.journal = rest; }
  else { f->n->synced = f->n->data; f->n->dirty = false; }
  return 0;
}
int symx_fdatasync(int i) { return symx_fsync(i); }
int symx_ftruncate(int i, off_t n) { pt(); Fd* f = fd(i); if (!f) return -1; if (n < 0) return err(EINVAL); if (simpleOp()) return err(vfs.fail_errno); f->n->data.resize(n, 0); f->n->dirty = true; return 0; }
int symx_rename(const char* a, const char* b) { pt(); return doRename(a, b, false); }
int symx_remove(const char* p0) { struct stat st; if (symx_stat(p0, &st)) return -1; return S_ISDIR(st.st_mode) ? symx_rmdir(p0) : symx_unlink(p0); }
int symx_fcntl(int fd, int, ...) { struct stat st; return symx_fstat(fd, &st) ? -1 : 0; }
int symx_unlink(const char* p0) { pt(); std::string p = norm(p0); NP n = find(p); if (!n) return err(ENOENT); if (n->dir) return err(EISDIR); if (simpleOp()) return err(vfs.fail_errno); fs().live.erase(p); fs().journal.push_back({2, p, "", n}); return 0; }
int symx_rmdir(const char* p0) { pt(); std::string p = norm(p0); NP n = find(p); if (!n) return err(ENOENT); if (!n->dir) return err(ENOTDIR); for (auto& [q, x] : fs().live) if (hasPrefix(q, p)) return err(ENOTEMPTY); if (simpleOp()) return err(vfs.fail_errno); fs().live.erase(p); fs().journal.push_back({2, p, "", n}); return 0; }
int symx_mkdir(const char* p0, mode_t) { pt(); std::string p = norm(p0); if (find(p)) return err(EEXIST); NP d = find(parent(p)); if (!d) return err(ENOENT); if (!d->dir) return err(ENOTDIR); if (simpleOp()) return err(vfs.fail_errno); NP n = new Node; n->dir = true; n->ino = fs().ino++; addEntry(p, n); return 0; }
int symx_link(const char* a, const char* b0) { std::string b = norm(b0); NP n = find(norm(a)); if (!n) return err(ENOENT); if (find(b)) return err(EEXIST); if (simpleOp()) return err(vfs.fail_errno); addEntry(b, n); return 0; }
int symx_stat(const char* p, struct stat* s) { pt(); NP n = find(norm(p)); if (!n) return err(ENOENT); statOf(n, s); return 0; }
int symx_lstat(const char* p, struct stat* s) { return symx_stat(p, s); }
int symx_fstat(int i, struct stat* s) { Fd* f = fd(i); if (!f) return -1; statOf(f->n, s); return 0; }
int symx_access(const char* p, int) { pt(); return find(norm(p)) ? 0 : err(ENOENT); }
int symx_flock(int i, int o) { pt(); Fd* f = fd(i); if (!f) return -1; if (o & LOCK_UN) { if (f->n->lockOwner == i) f->n->lockOwner = -1; return 0; } if (f->n->lockOwner >= 0 && f->n->lockOwner != i) return err(EWOULDBLOCK); f->n->lockOwner = i; return 0; }
long symx_raw_syscall(long, ...);
long symx_syscall(long nr, ...) { pt();
  va_list ap; va_start(ap, nr);
  if (nr == SYS_renameat2) { (void)va_arg(ap, long); const char* a = va_arg(ap, const char*); (void)va_arg(ap, long); const char* b = va_arg(ap, const char*); unsigned fl = va_arg(ap, unsigned); va_end(ap); return doRename(a, b, fl & 1); }
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap); return symx_raw_syscall(nr, a, b, c, d, e, f);
}
void* symx_mmap(void*, size_t n, int, int, int i, off_t o) { uint8_t* p = (uint8_t*)calloc(1, n ? n : 1); if (i >= 0) { Fd* f = fd(i); if (!f || f->n->dir) { free(p); return MAP_FAILED; } auto& d = f->n->data; if ((uint64_t)o < d.size()) { size_t k = d.size() - o; memcpy(p, d.data() + o, k < n ? k : n); } } return p; }
int symx_munmap(void* p, size_t) { free(p); return 0; }
int symx_madvise(void*, size_t, int) { return 0; } int symx_posix_fadvise(int, off_t, off_t, int) { return 0; }
int symx_posix_fallocate(int i, off_t o, off_t n) { Fd* f = fd(i); if (!f) return EBADF; if (simpleOp()) return vfs.fail_errno; if (f->n->data.size() < (uint64_t)(o + n)) f->n->data.resize(o + n, 0); f->n->dirty = true; return 0; }
}
