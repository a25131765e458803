// Ordered-map model of the RocksDB interface: atomic batches, durable once Write() returns, exclusive open.
#pragma once
#include <string>
#include <string_view>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <cstring>
#include <cstdint>
#include "../../rt/vfs.h"
namespace rocksdb {
struct Slice { const char* d_ = ""; size_t n_ = 0; Slice() {} Slice(const char* d, size_t n) : d_(d), n_(n) {} Slice(const std::string& s) : d_(s.data()), n_(s.size()) {} Slice(std::string_view s) : d_(s.data()), n_(s.size()) {} Slice(const char* s) : d_(s), n_(strlen(s)) {} const char* data() const { return d_; } size_t size() const { return n_; } bool empty() const { return n_ == 0; } char operator[](size_t i) const { return d_[i]; } std::string ToString(bool = false) const { return std::string(d_, n_); } std::string_view ToStringView() const { return {d_, n_}; } bool starts_with(const Slice& o) const { return n_ >= o.n_ && memcmp(d_, o.d_, o.n_) == 0; } void remove_prefix(size_t k) { d_ += k; n_ -= k; } int compare(const Slice& o) const { return ToStringView().compare(o.ToStringView()); } };
inline bool operator==(const Slice& a, const Slice& b) { return a.ToStringView() == b.ToStringView(); } inline bool operator!=(const Slice& a, const Slice& b) { return !(a == b); }
struct Status { int c = 0; std::string m; bool ok() const { return c == 0; } bool IsNotFound() const { return c == 1; } bool IsIOError() const { return c == 2; } std::string ToString() const { return c == 0 ? "OK" : c == 1 ? "NotFound: " : m; } static Status OK() { return {}; } static Status NotFound() { return {1, "NotFound"}; } static Status IOError(const char* s) { return {2, s}; } };
enum CompactionStyle { kCompactionStyleLevel }; enum CompressionType { kNoCompression, kLZ4Compression, kZSTD, kSnappyCompression };
struct Cache {}; struct FilterPolicy {}; struct TableFactory {}; struct Snapshot {};
struct BlockBasedTableOptions { std::shared_ptr<Cache> block_cache; bool cache_index_and_filter_blocks, cache_index_and_filter_blocks_with_high_priority, pin_l0_filter_and_index_blocks_in_cache; size_t block_size; std::shared_ptr<const FilterPolicy> filter_policy; bool whole_key_filtering; int format_version; };
inline std::shared_ptr<Cache> NewLRUCache(size_t, int = -1) { return nullptr; } inline const FilterPolicy* NewBloomFilterPolicy(double, bool = false) { return nullptr; } inline TableFactory* NewBlockBasedTableFactory(const BlockBasedTableOptions&) { return nullptr; }
struct Options { bool create_if_missing = false, error_if_exists = false; size_t write_buffer_size = 0; int max_write_buffer_number = 0; uint64_t target_file_size_base = 0; int max_background_compactions = 0, max_background_flushes = 0, max_background_jobs = 0; CompactionStyle compaction_style = kCompactionStyleLevel; bool level_compaction_dynamic_level_bytes = false; CompressionType compression = kNoCompression, bottommost_compression = kNoCompression; std::shared_ptr<TableFactory> table_factory; int max_open_files = 0; bool allow_mmap_reads = false; void IncreaseParallelism(int = 0) {} void OptimizeLevelStyleCompaction(uint64_t = 0) {} };
struct WriteOptions { bool sync = false, disableWAL = false; }; struct ReadOptions { bool total_order_seek = false, prefix_same_as_start = false, fill_cache = true, verify_checksums = true; const Snapshot* snapshot = nullptr; const Slice* iterate_upper_bound = nullptr; const Slice* iterate_lower_bound = nullptr; size_t readahead_size = 0; bool auto_prefix_mode = false, async_io = false; };
struct FlushOptions { bool wait = true; }; struct CompactRangeOptions {};
struct WriteBatch { struct Op { bool del; std::string k, v; }; std::vector<Op> ops; Status Put(const Slice& k, const Slice& v) { ops.push_back({false, k.ToString(), v.ToString()}); return {}; } Status Delete(const Slice& k) { ops.push_back({true, k.ToString(), ""}); return {}; } void Clear() { ops.clear(); } int Count() const { return (int)ops.size(); } };
typedef std::map<std::string, std::string> Kv;
struct Iterator { const Kv* m; Kv::const_iterator it; std::string lo, hi; bool hasHi = false, hasLo = false, end_ = true;
  bool Valid() const { if (end_ || it == m->end()) return false; if (hasHi && !(it->first < hi)) return false; if (hasLo && it->first < lo) return false; return true; }
  void Seek(const Slice& k) { it = m->lower_bound(hasLo && k.ToString() < lo ? lo : k.ToString()); end_ = false; } void SeekToFirst() { if (hasLo) it = m->lower_bound(lo); else it = m->begin(); end_ = false; } void SeekToLast() { end_ = true; if (hasHi) { it = m->lower_bound(hi); } else it = m->end(); if (it != m->begin()) { --it; end_ = false; } } void SeekForPrev(const Slice& k) { it = m->upper_bound(k.ToString()); end_ = true; if (it != m->begin()) { --it; end_ = false; } }
  void Next() { ++it; } void Prev() { if (it == m->begin()) end_ = true; else --it; } Slice key() const { return Slice(it->first); } Slice value() const { return Slice(it->second); } Status status() const { return {}; } };
inline std::set<std::string>& mock_open() { static std::set<std::string> s; return s; }
struct DB {
  Kv m; std::string path; bool ro = false, closed = false;
  std::string file() const { return path + "/DATA"; }
  void store() { std::string b; auto u = [&](size_t n) { uint32_t k = (uint32_t)n; b.append((const char*)&k, 4); }; u(m.size()); for (auto& [k, v] : m) { u(k.size()); u(v.size()); b += k; b += v; } vfs_put(file(), b.data(), b.size()); }
  void load() { auto* d = vfs_data(file()); if (!d) return; const char* p = (const char*)d->data(); auto u = [&] { uint32_t k; memcpy(&k, p, 4); p += 4; return k; }; uint32_t n = u(); for (uint32_t i = 0; i < n; i++) { uint32_t a = u(), b = u(); std::string k(p, a); p += a; std::string v(p, b); p += b; m.emplace_hint(m.end(), std::move(k), std::move(v)); } }
  static Status OpenImpl(const Options& o, const std::string& p, DB** out, bool ro) { *out = nullptr; bool ex = vfs_exists(p + "/DATA"); if (!ro && mock_open().count(p)) return Status::IOError("IO error: lock hold by current process: LOCK: No locks available"); if (ex && o.error_if_exists && !ro) return Status::IOError("exists"); if (!ex && (ro || !o.create_if_missing)) return Status::IOError("does not exist"); DB* d = new DB; d->path = p; d->ro = ro; d->load(); if (!ro) { mock_open().insert(p); if (!ex) d->store(); } *out = d; return {}; }
  static Status Open(const Options& o, const std::string& p, DB** out) { return OpenImpl(o, p, out, false); } static Status OpenForReadOnly(const Options& o, const std::string& p, DB** out, bool = false) { return OpenImpl(o, p, out, true); }
  Status Write(const WriteOptions&, WriteBatch* b) { if (ro) return Status::IOError("Not supported operation in read only mode."); int r = vfs_step(); if (r == 1) return Status::IOError("IO error"); for (auto& x : b->ops) if (x.del) m.erase(x.k); else m[x.k] = x.v; store(); vfs_step_done(r); return {}; }
  Status Put(const WriteOptions& o, const Slice& k, const Slice& v) { WriteBatch b; b.Put(k, v); return Write(o, &b); } Status Delete(const WriteOptions& o, const Slice& k) { WriteBatch b; b.Delete(k); return Write(o, &b); }
  Status Get(const ReadOptions&, const Slice& k, std::string* v) { auto it = m.find(k.ToString()); if (it == m.end()) return Status::NotFound(); *v = it->second; return {}; }
  std::vector<Status> MultiGet(const ReadOptions& o, const std::vector<Slice>& k, std::vector<std::string>* v) { std::vector<Status> r; v->assign(k.size(), {}); for (size_t i = 0; i < k.size(); i++) r.push_back(Get(o, k[i], &(*v)[i])); return r; }
  Iterator* NewIterator(const ReadOptions& o) { auto* i = new Iterator; i->m = &m; if (o.iterate_upper_bound) { i->hasHi = true; i->hi = o.iterate_upper_bound->ToString(); } if (o.iterate_lower_bound) { i->hasLo = true; i->lo = o.iterate_lower_bound->ToString(); } return i; }
  Status Flush(const FlushOptions&) { return {}; } Status CompactRange(const CompactRangeOptions&, const Slice*, const Slice*) { return {}; } bool GetProperty(const Slice&, std::string* s) { *s = ""; return true; } Status SyncWAL() { return {}; } Status FlushWAL(bool) { return {}; }
  const Snapshot* GetSnapshot() { return nullptr; } void ReleaseSnapshot(const Snapshot*) {}
  Status Close() { if (!closed && !ro) mock_open().erase(path); closed = true; return {}; }
  ~DB() { Close(); }
};
struct Checkpoint { DB* d; static Status Create(DB* d, Checkpoint** o) { *o = new Checkpoint{d}; return {}; } Status CreateCheckpoint(const std::string& p, uint64_t = 0) { if (vfs_exists(p)) return Status::IOError("Invalid argument: Directory exists"); int r = vfs_step(); if (r == 1) return Status::IOError("IO error"); DB t; t.path = p; t.m = d->m; t.ro = true; t.store(); vfs_step_done(r); return {}; } };
inline Status DestroyDB(const std::string& p, const Options&) { return {}; }
}
