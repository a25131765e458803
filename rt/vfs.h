// In-memory POSIX file system with crash points and fault injection; used by symbolic runs and native replays alike.
#pragma once
#include <cstdint>
#include <cstddef>
#include <sys/types.h>
#include <sys/stat.h>
#include <string>
#include <vector>
extern "C" {
int symx_open(const char*, int, ...); int symx_close(int); ssize_t symx_read(int, void*, size_t); ssize_t symx_write(int, const void*, size_t);
ssize_t symx_pread(int, void*, size_t, off_t); ssize_t symx_pwrite(int, const void*, size_t, off_t); off_t symx_lseek(int, off_t, int);
int symx_fsync(int); int symx_fdatasync(int); int symx_ftruncate(int, off_t); int symx_rename(const char*, const char*); int symx_unlink(const char*); int symx_remove(const char*); int symx_fcntl(int, int, ...); int symx_mkdir(const char*, mode_t); int symx_rmdir(const char*);
int symx_stat(const char*, struct stat*); int symx_lstat(const char*, struct stat*); int symx_fstat(int, struct stat*); int symx_access(const char*, int); int symx_flock(int, int); long symx_syscall(long, ...); int symx_link(const char*, const char*);
void* symx_mmap(void*, size_t, int, int, int, off_t); int symx_munmap(void*, size_t); int symx_madvise(void*, size_t, int); int symx_posix_fadvise(int, off_t, off_t, int); int symx_posix_fallocate(int, off_t, off_t);
}
enum VfsCrash { VFS_NOCRASH = 0, VFS_PROCESS = 1, VFS_POWER = 2 };
struct VfsCtl {
  uint64_t ops = 0;          // mutating operations performed so far
  uint64_t crash_at = ~0ULL; // operation index at which the machine stops (before/inside it)
  int crash_kind = VFS_PROCESS;
  uint64_t torn = 0;         // bytes of the interrupted write that reached the file
  uint64_t fail_at = ~0ULL;  // operation index that fails
  uint64_t fail_count = 1;   // number of consecutive failing operations from fail_at
  int fail_errno = 28;
  uint64_t fail_short = 0;   // bytes written before the failing write reports an error
  uint64_t ropens = 0, fail_ropen_at = ~0ULL; // opens of existing files for reading; the one that fails (too many open files)
  bool crashed = false, failed = false;
  bool trace = false;
  bool in_write = false;     // the operation that was stopped or failed was a write, so torn or fail_short mattered
  bool mt = false;           // several threads use the file system: every call is a scheduling point
};
extern VfsCtl vfs;
void vfs_reset();
void vfs_crash_recover();                                    // after symx_abort_try(77): drop open handles, apply power loss
bool vfs_exists(const std::string&); bool vfs_is_dir(const std::string&);
std::vector<uint8_t>* vfs_data(const std::string&);         // live contents, nullptr if absent
void vfs_put(const std::string& path, const void* p, size_t n);  // create durable file (and parents)
std::vector<std::string> vfs_list(const std::string& dir);  // names directly inside
std::vector<std::string> vfs_all();
int vfs_open_count();
int vfs_step();                  // one mutating operation done outside this file system: 0 go on, 1 fail it; stops the machine before it at crash_at when torn==0
void vfs_step_done(int r);       // stops the machine after it when torn!=0 (r==2)
