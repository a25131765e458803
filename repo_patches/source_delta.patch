From 7345598950efc1d1abb9488092164a243d30f1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 01/49] fix: cut a torn WAL tail before appending, so later
 commits stay replayable

---
 include/recovery/write_ahead_log.hpp | 44 ++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/include/recovery/write_ahead_log.hpp b/include/recovery/write_ahead_log.hpp
index e11752c..47d879b 100644
--- a/include/recovery/write_ahead_log.hpp
+++ b/include/recovery/write_ahead_log.hpp
@@ -294,9 +294,53 @@ class WriteAheadLog {
            static_cast<uintmax_t>(payload_size) <= remaining_bytes - kTrailerSize;
   }
 
+  /**
+   * @brief Cuts the WAL back to its last complete frame before new frames are appended.
+   *
+   * Replay stops at the first frame it cannot read, so frames appended behind a torn tail left by a
+   * crash or a failed write would never be replayed.
+   */
+  auto discard_unreadable_tail() const -> void {
+    std::error_code ec;
+    const auto wal_file_size = fs::file_size(path_, ec);
+    if (ec || wal_file_size == 0) {
+      return;
+    }
+
+    uintmax_t readable_size = 0;
+    {
+      std::ifstream input(path_, std::ios::binary);
+      if (!input.is_open()) {
+        throw std::runtime_error("Failed to open WAL file at " + path_.string());
+      }
+      while (true) {
+        auto header = read_frame_header(input);
+        if (!header.has_value() ||
+            !payload_size_is_plausible(input, wal_file_size, header->payload_size_)) {
+          break;
+        }
+        input.seekg(static_cast<std::streamoff>(header->payload_size_), std::ios::cur);
+        uint32_t trailer = 0;
+        input.read(reinterpret_cast<char *>(&trailer), sizeof(trailer));
+        if (!input || trailer != kWalTrailerMagic) {
+          break;
+        }
+        readable_size = static_cast<uintmax_t>(input.tellg());
+      }
+    }
+    if (readable_size < wal_file_size) {
+      LOG_WARN("WAL tail is unreadable, keeping {} of {} bytes at {}",
+               readable_size,
+               wal_file_size,
+               path_.string());
+      fs::resize_file(path_, readable_size);
+    }
+  }
+
   auto ensure_stream_open() const -> void {
     if (!wal_stream_.is_open()) {
       fs::create_directories(path_.parent_path());
+      discard_unreadable_tail();
       wal_stream_.open(path_, std::ios::binary | std::ios::app);
       if (!wal_stream_.is_open()) {
         throw std::runtime_error("Failed to open WAL file for append at " + path_.string());
-- 
2.43.0


From a772988d43a4fb6f17794426d61d4d94820c91e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 02/49] fix: sync the WAL directory when the log is opened, so
 acknowledged commits survive power loss

---
 include/recovery/write_ahead_log.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/recovery/write_ahead_log.hpp b/include/recovery/write_ahead_log.hpp
index 47d879b..e246c6e 100644
--- a/include/recovery/write_ahead_log.hpp
+++ b/include/recovery/write_ahead_log.hpp
@@ -345,6 +345,8 @@ class WriteAheadLog {
       if (!wal_stream_.is_open()) {
         throw std::runtime_error("Failed to open WAL file for append at " + path_.string());
       }
+      // A newly created log is only as durable as its directory entry.
+      platform::sync_directory(path_.parent_path());
     }
   }
 
-- 
2.43.0


From dc028c215e37bc7d82517b446909ccc0c2b75f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 03/49] fix: report WAL write failures instead of acknowledging
 lost frames

---
 include/recovery/write_ahead_log.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/recovery/write_ahead_log.hpp b/include/recovery/write_ahead_log.hpp
index e246c6e..0b85a5b 100644
--- a/include/recovery/write_ahead_log.hpp
+++ b/include/recovery/write_ahead_log.hpp
@@ -396,6 +396,12 @@ class WriteAheadLog {
 
     wal_stream_.write(buf.data(), static_cast<std::streamsize>(buf.size()));
     wal_stream_.flush();
+    if (!wal_stream_) {
+      // Reopening the log for the next append discards whatever part of this frame was written.
+      wal_stream_.close();
+      wal_stream_.clear();
+      throw std::runtime_error("Failed to append to WAL file at " + path_.string());
+    }
 
     // Only fsync on COMMIT frames. PREPARE frames are durable enough after
     // flush — a crash between PREPARE and COMMIT leaves an uncommitted record
-- 
2.43.0


From b603bffc71bedebe240c9e72471e2401a739acbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:33 +0000
Subject: [PATCH 04/49] fix: keep operation ids increasing after the WAL is
 truncated by a snapshot

---
 include/recovery/recovery_manager.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index e142eb9..39879a3 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <filesystem>  // NOLINT(build/c++17)
 #include <fstream>
 #include <optional>
@@ -58,8 +59,9 @@ class RecoveryManager {
     if (manifest.has_value()) {
       max_seen = manifest->applied_through_op_id_;
     }
-    (void)wal_.replayable_records(0, &max_seen);
-    return max_seen + 1;
+    uint64_t wal_max_seen = 0;
+    (void)wal_.replayable_records(0, &wal_max_seen);
+    return std::max(max_seen, wal_max_seen) + 1;
   }
 
   [[nodiscard]] auto create_snapshot_dir() const -> fs::path {
-- 
2.43.0


From 09af52c4769686488a52202940e3420354543c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:33 +0000
Subject: [PATCH 05/49] fix: give every snapshot its own directory even within
 one millisecond

---
 include/recovery/recovery_manager.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index 39879a3..c11eea7 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -67,11 +67,15 @@ class RecoveryManager {
   [[nodiscard]] auto create_snapshot_dir() const -> fs::path {
     ensure_layout();
     auto now = SnapshotManifest::current_unix_ms();
-    std::ostringstream name;
-    name << "snapshot-" << now;
-    auto snapshot_dir = snapshots_dir_ / name.str();
-    fs::create_directories(snapshot_dir);
-    return snapshot_dir;
+    // Two snapshots can start within one millisecond; never hand out a directory already in use.
+    for (;; ++now) {
+      std::ostringstream name;
+      name << "snapshot-" << now;
+      auto snapshot_dir = snapshots_dir_ / name.str();
+      if (fs::create_directory(snapshot_dir)) {
+        return snapshot_dir;
+      }
+    }
   }
 
   // TODO(P2): The snapshot directory is only published after graph files and the RocksDB
-- 
2.43.0


From 913cfb74ae1d8b980a09169c781af743f4c2093e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:33 +0000
Subject: [PATCH 06/49] fix: do not publish a snapshot whose manifest or
 CURRENT could not be written

---
 include/recovery/recovery_manager.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index c11eea7..694d8cf 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -260,6 +260,9 @@ class RecoveryManager {
       output.write(content.data(), static_cast<std::streamsize>(content.size()));
       output.flush();
       output.close();
+      if (!output) {
+        throw std::runtime_error("Failed to write " + tmp_path.string());
+      }
     }
 
     platform::sync_file(tmp_path);
-- 
2.43.0


From d7550ea2f04d7fc2e5ff7e6a2656679d02e431e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:39 +0000
Subject: [PATCH 07/49] fix: NaN metadata no longer satisfies >= and <= filters

---
 include/utils/metadata_filter.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/utils/metadata_filter.hpp b/include/utils/metadata_filter.hpp
index 876d061..fc4bdb1 100644
--- a/include/utils/metadata_filter.hpp
+++ b/include/utils/metadata_filter.hpp
@@ -114,7 +114,10 @@ struct FilterCondition {
           if (va > vb) {
             return 1;
           }
-          return 0;
+          if (va == vb) {
+            return 0;
+          }
+          return std::nullopt;  // NaN is unordered
         },
         a);
   }
-- 
2.43.0


From 6db3a1df41994a552c8ecb41a49a2d0b5527d86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:59 +0000
Subject: [PATCH 08/49] fix: secondary index lookups no longer match values or
 fields whose key merely extends the searched one

---
 include/storage/rocksdb_storage.hpp | 51 +++++++++++++++++++++++++++++
 include/utils/index_encoding.hpp    |  7 ++++
 2 files changed, 58 insertions(+)

diff --git a/include/storage/rocksdb_storage.hpp b/include/storage/rocksdb_storage.hpp
index 76cff7d..8088036 100644
--- a/include/storage/rocksdb_storage.hpp
+++ b/include/storage/rocksdb_storage.hpp
@@ -561,10 +561,17 @@ class RocksDBStorage {
       if (!key.starts_with(prefix)) {
         break;
       }
+      // A longer value continues with '_' (e.g. "a" vs "a_b"): only the record id may remain.
+      if (key.find('_', prefix.size()) != std::string::npos) {
+        continue;
+      }
       IDType id = index_encoding::extract_id_from_key<IDType>(key);
       ids.push_back(id);
     }
 
+    drop_foreign_index_matches(field, ids, [&value](const MetadataValue &stored) {
+      return stored == value;
+    });
     return ids;
   }
 
@@ -605,6 +612,9 @@ class RocksDBStorage {
         continue;
       }
       std::string encoded_value = key.substr(value_start, value_end - value_start);
+      if (!index_encoding::is_encoded_number(encoded_value)) {
+        continue;  // Belongs to another field whose name extends this one
+      }
       if (encoded_value > end_encoded) {
         break;  // Exceeded max value
       }
@@ -612,6 +622,10 @@ class RocksDBStorage {
       ids.push_back(id);
     }
 
+    drop_foreign_index_matches(field, ids, [=](const MetadataValue &stored) {
+      const auto *number = std::get_if<int64_t>(&stored);
+      return number != nullptr && *number >= min_value && *number <= max_value;
+    });
     return ids;
   }
 
@@ -649,6 +663,9 @@ class RocksDBStorage {
         continue;
       }
       std::string encoded_value = key.substr(value_start, value_end - value_start);
+      if (!index_encoding::is_encoded_number(encoded_value)) {
+        continue;  // Belongs to another field whose name extends this one
+      }
       if (encoded_value > end_encoded) {
         break;
       }
@@ -656,6 +673,10 @@ class RocksDBStorage {
       ids.push_back(id);
     }
 
+    drop_foreign_index_matches(field, ids, [=](const MetadataValue &stored) {
+      const auto *number = std::get_if<double>(&stored);
+      return number != nullptr && *number >= min_value && *number <= max_value;
+    });
     return ids;
   }
 
@@ -708,6 +729,36 @@ class RocksDBStorage {
   }
 
  private:
+  /**
+   * @brief Drops index hits that belong to another field whose keys overlap this field's keys.
+   *
+   * Index keys join field name and value with '_', so a field named "x_s" can produce the key of a
+   * field named "x". Only then are the stored records consulted.
+   */
+  template <typename Predicate>
+  void drop_foreign_index_matches(const std::string &field,
+                                  std::vector<IDType> &ids,
+                                  const Predicate &predicate) const {
+    bool overlaps = std::any_of(config_.indexed_fields_.begin(),
+                                config_.indexed_fields_.end(),
+                                [&field](const std::string &other) {
+                                  return other.starts_with(field + "_") ||
+                                         field.starts_with(other + "_");
+                                });
+    if (!overlaps) {
+      return;
+    }
+    std::erase_if(ids, [&](IDType id) {
+      std::string raw;
+      if (!get_data_value(id, &raw)) {
+        return true;
+      }
+      auto stored = ScalarData::deserialize_selected_metadata(raw.data(), raw.size(), {field});
+      auto it = stored.find(field);
+      return it == stored.end() || !predicate(it->second);
+    });
+  }
+
   void close_db() noexcept {
     if (db_ == nullptr) {
       return;
diff --git a/include/utils/index_encoding.hpp b/include/utils/index_encoding.hpp
index 250a75a..ce5f423 100644
--- a/include/utils/index_encoding.hpp
+++ b/include/utils/index_encoding.hpp
@@ -104,6 +104,13 @@ inline auto encode_value(const MetadataValue &value) -> std::string {
       value);
 }
 
+/**
+ * @brief Tells whether a key component is a number written by encode_int64() or encode_double().
+ */
+inline auto is_encoded_number(const std::string &encoded) -> bool {
+  return encoded.size() == 16 && encoded.find_first_not_of("0123456789abcdef") == std::string::npos;
+}
+
 /**
  * @brief Generate field index key: f_{field}_{encoded_value}_{id}
  */
-- 
2.43.0


From e3f768a3587a2ba23b9fa460803270ee8b47c78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:59 +0000
Subject: [PATCH 09/49] fix: indexed double filters agree with full evaluation
 for infinities, signed zeros, NaN and the largest values

---
 include/storage/rocksdb_storage.hpp       | 11 +++++++++
 include/utils/metadata_filter_matcher.hpp | 27 ++++++++++++++---------
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/include/storage/rocksdb_storage.hpp b/include/storage/rocksdb_storage.hpp
index 8088036..240a45d 100644
--- a/include/storage/rocksdb_storage.hpp
+++ b/include/storage/rocksdb_storage.hpp
@@ -17,6 +17,7 @@
 #include <algorithm>
 #include <atomic>
 #include <cctype>
+#include <cmath>
 #include <cstddef>
 #include <cstring>
 #include <filesystem>  // NOLINT(build/c++17)
@@ -548,6 +549,9 @@ class RocksDBStorage {
   [[nodiscard]] auto get_ids_by_field_value(const std::string &field,
                                             const MetadataValue &value) const
       -> std::vector<IDType> {
+    if (const auto *number = std::get_if<double>(&value)) {
+      return get_ids_by_double_range(field, *number, *number);
+    }
     std::vector<IDType> ids;
     std::string encoded = index_encoding::encode_value(value);
     std::string prefix = index_encoding::make_field_index_prefix(field, encoded);
@@ -639,6 +643,13 @@ class RocksDBStorage {
   [[nodiscard]] auto get_ids_by_double_range(const std::string &field,
                                              double min_value,
                                              double max_value) const -> std::vector<IDType> {
+    // Keys order doubles by their bits: cover both zeros, and let NaN match nothing.
+    if (std::isnan(min_value) || std::isnan(max_value)) {
+      return {};
+    }
+    min_value = min_value == 0.0 ? -0.0 : min_value;
+    max_value = max_value == 0.0 ? 0.0 : max_value;
+
     std::vector<IDType> ids;
 
     std::string field_prefix = index_encoding::make_field_prefix(field);
diff --git a/include/utils/metadata_filter_matcher.hpp b/include/utils/metadata_filter_matcher.hpp
index b374b53..a9b58b9 100644
--- a/include/utils/metadata_filter_matcher.hpp
+++ b/include/utils/metadata_filter_matcher.hpp
@@ -196,7 +196,7 @@ class MetadataFilterExecutor {
         if (std::holds_alternative<double>(cond.value)) {
           return storage_->get_ids_by_double_range(cond.field,
                                                    std::get<double>(cond.value),
-                                                   std::numeric_limits<double>::max());
+                                                   std::numeric_limits<double>::infinity());
         }
         return std::nullopt;
       case FilterOp::GT:
@@ -211,10 +211,13 @@ class MetadataFilterExecutor {
         }
         if (std::holds_alternative<double>(cond.value)) {
           auto value = std::get<double>(cond.value);
-          return storage_
-              ->get_ids_by_double_range(cond.field,
-                                        std::nextafter(value, std::numeric_limits<double>::max()),
-                                        std::numeric_limits<double>::max());
+          if (value == std::numeric_limits<double>::infinity()) {
+            return std::vector<IDType>{};
+          }
+          return storage_->get_ids_by_double_range(
+              cond.field,
+              std::nextafter(value, std::numeric_limits<double>::infinity()),
+              std::numeric_limits<double>::infinity());
         }
         return std::nullopt;
       case FilterOp::LE:
@@ -225,7 +228,7 @@ class MetadataFilterExecutor {
         }
         if (std::holds_alternative<double>(cond.value)) {
           return storage_->get_ids_by_double_range(cond.field,
-                                                   std::numeric_limits<double>::lowest(),
+                                                   -std::numeric_limits<double>::infinity(),
                                                    std::get<double>(cond.value));
         }
         return std::nullopt;
@@ -241,11 +244,13 @@ class MetadataFilterExecutor {
         }
         if (std::holds_alternative<double>(cond.value)) {
           auto value = std::get<double>(cond.value);
-          return storage_
-              ->get_ids_by_double_range(cond.field,
-                                        std::numeric_limits<double>::lowest(),
-                                        std::nextafter(value,
-                                                       std::numeric_limits<double>::lowest()));
+          if (value == -std::numeric_limits<double>::infinity()) {
+            return std::vector<IDType>{};
+          }
+          return storage_->get_ids_by_double_range(
+              cond.field,
+              -std::numeric_limits<double>::infinity(),
+              std::nextafter(value, -std::numeric_limits<double>::infinity()));
         }
         return std::nullopt;
       default:
-- 
2.43.0


From 0f932a3dee91ffc71f7224273b3834acc9c4fd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 10/49] fix: keep the stored record count in step with the
 records across crashes

---
 include/storage/rocksdb_storage.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/storage/rocksdb_storage.hpp b/include/storage/rocksdb_storage.hpp
index 240a45d..45a319c 100644
--- a/include/storage/rocksdb_storage.hpp
+++ b/include/storage/rocksdb_storage.hpp
@@ -241,6 +241,7 @@ class RocksDBStorage {
 
     // Add field indexes for indexed fields
     add_field_indexes(batch, id, data);
+    put_count(batch, cached_count_ + (replacing_existing ? 0 : 1));
 
     rocksdb::Status status = db_->Write(rocksdb::WriteOptions(), &batch);
     if (!status.ok()) {
@@ -347,6 +348,8 @@ class RocksDBStorage {
       add_field_indexes(batch, record.id, record.data);
     }
 
+    put_count(batch, cached_count_ + inserted_count);
+
     rocksdb::Status status = db_->Write(rocksdb::WriteOptions(), &batch);
     if (!status.ok()) {
       LOG_ERROR("Batch insert failed: {}", status.ToString());
@@ -381,6 +384,8 @@ class RocksDBStorage {
     // Remove field indexes
     remove_field_indexes(batch, id, data);
 
+    put_count(batch, cached_count_ > 0 ? cached_count_ - 1 : 0);
+
     rocksdb::Status status = db_->Write(rocksdb::WriteOptions(), &batch);
     if (!status.ok()) {
       LOG_ERROR("Failed to remove ID {}: {}", id, status.ToString());
@@ -1034,6 +1039,13 @@ class RocksDBStorage {
     }
   }
 
+  /**
+   * @brief Records the count in the same batch as the change, so a crash cannot separate the two.
+   */
+  static void put_count(rocksdb::WriteBatch &batch, size_t count) {
+    batch.Put(count_key(), rocksdb::Slice(reinterpret_cast<const char *>(&count), sizeof(size_t)));
+  }
+
   void save_count() const {
     if (db_ == nullptr || read_only_) {
       return;
-- 
2.43.0


From 90f4308c56ce087ccae97dc0187441ecebbf0f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:13 +0000
Subject: [PATCH 11/49] fix: refuse a tombstone file whose word count overflows
 instead of crashing

---
 include/index/graph/diskann/tombstone_bitmap.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/index/graph/diskann/tombstone_bitmap.hpp b/include/index/graph/diskann/tombstone_bitmap.hpp
index 9cf8904..96f5129 100644
--- a/include/index/graph/diskann/tombstone_bitmap.hpp
+++ b/include/index/graph/diskann/tombstone_bitmap.hpp
@@ -194,6 +194,9 @@ class TombstoneBitmap {
     if (!in || magic != kMagic) {
       throw std::runtime_error("TombstoneBitmap::deserialize: bad magic/truncated");
     }
+    if (n_words > kMaxChunks * kChunkWords) {
+      throw std::runtime_error("TombstoneBitmap::deserialize: word count out of range");
+    }
     reset(0);
     ensure_capacity(n_words * 64);
     uint64_t recount = 0;
-- 
2.43.0


From 3bed9fd20a3a5bffa3c1252645400a4d60282253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 12/49] fix: refuse disk layout headers whose sizes overflow
 instead of dividing by zero

---
 include/index/graph/diskann/disk_layout.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/index/graph/diskann/disk_layout.hpp b/include/index/graph/diskann/disk_layout.hpp
index bf43d0b..9a50d5f 100644
--- a/include/index/graph/diskann/disk_layout.hpp
+++ b/include/index/graph/diskann/disk_layout.hpp
@@ -35,6 +35,7 @@
 #include <cstring>
 #include <filesystem>  // NOLINT(build/c++17)
 #include <fstream>
+#include <limits>
 #include <stdexcept>
 #include <string>
 #include <vector>
@@ -102,6 +103,9 @@ struct DiskLayoutGeometry {
     if (dim == 0) {
       throw std::invalid_argument("DiskLayoutGeometry: dim must be > 0");
     }
+    if (dim > std::numeric_limits<uint64_t>::max() / (2 * sizeof(float))) {
+      throw std::invalid_argument("DiskLayoutGeometry: dim too large");
+    }
     DiskLayoutGeometry g;
     g.dim = dim;
     g.max_degree = max_degree;
@@ -321,6 +325,18 @@ inline DiskLayoutHeader read_disk_layout_header(const std::string &path) {
   if (h.num_points == 0 || h.dim == 0) {
     throw std::runtime_error("read_disk_layout_header: zero num_points/dim in " + path);
   }
+  std::error_code ec;
+  const auto actual = std::filesystem::file_size(path, ec);
+  if (ec) {
+    throw std::runtime_error("read_disk_layout_header: cannot stat " + path);
+  }
+  // Every record occupies its own bytes of the file, so larger counts are corrupt
+  // (and would overflow the size arithmetic below).
+  if (h.dim > static_cast<uint64_t>(actual) / sizeof(float) ||
+      h.num_points > static_cast<uint64_t>(actual) / (h.dim * sizeof(float))) {
+    throw std::runtime_error("read_disk_layout_header: num_points/dim exceed the file size in " +
+                             path);
+  }
   const DiskLayoutGeometry geom = DiskLayoutGeometry::compute(h.dim, h.max_degree);
   if (h.node_len != geom.node_len) {
     throw std::runtime_error("read_disk_layout_header: node_len mismatch (header " +
@@ -339,11 +355,6 @@ inline DiskLayoutHeader read_disk_layout_header(const std::string &path) {
                              std::to_string(h.total_file_size) + " != expected " +
                              std::to_string(expected));
   }
-  std::error_code ec;
-  const auto actual = std::filesystem::file_size(path, ec);
-  if (ec) {
-    throw std::runtime_error("read_disk_layout_header: cannot stat " + path);
-  }
   if (static_cast<uint64_t>(actual) != h.total_file_size) {
     throw std::runtime_error("read_disk_layout_header: on-disk size " + std::to_string(actual) +
                              " != header total_file_size " + std::to_string(h.total_file_size));
-- 
2.43.0


From 1e1ffd3255fb27c14e2b47e546f03f5a007bdc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 13/49] fix: report node cache write failures that surface when
 buffers are flushed

---
 include/index/graph/diskann/node_cache.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/index/graph/diskann/node_cache.hpp b/include/index/graph/diskann/node_cache.hpp
index 403dd83..6ca442f 100644
--- a/include/index/graph/diskann/node_cache.hpp
+++ b/include/index/graph/diskann/node_cache.hpp
@@ -169,6 +169,7 @@ class NodeCache {
         out.write(reinterpret_cast<const char *>(ids.data()),
                   static_cast<std::streamsize>(count * sizeof(uint32_t)));
       }
+      out.flush();
       if (!out) {
         throw std::runtime_error("NodeCache::save: write failed for " + ids_path);
       }
@@ -189,6 +190,7 @@ class NodeCache {
         }
         out.write(record, static_cast<std::streamsize>(node_len_));
       }
+      out.flush();
       if (!out) {
         throw std::runtime_error("NodeCache::save: write failed for " + nodes_path);
       }
-- 
2.43.0


From eee3cc382e5322d26e2105e3fd33a3f89455af9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 14/49] fix: make a flat segment's files durable before its
 directory is published

---
 include/index/disk/disk_flat_builder.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/index/disk/disk_flat_builder.hpp b/include/index/disk/disk_flat_builder.hpp
index 4257e6e..92c5487 100644
--- a/include/index/disk/disk_flat_builder.hpp
+++ b/include/index/disk/disk_flat_builder.hpp
@@ -252,6 +252,8 @@ class DiskFlatBuilder {
     manifest.vectors_file = "vectors.f32.bin";
     manifest.save(tmp_dir / "manifest.txt");
 
+    // The entries of tmp_dir must be durable before the directory is published.
+    detail::fsync_dir(tmp_dir);
     detail::rename_no_replace(tmp_dir, segment_dir);
     guard.disarm();
     // The segment is now published — mark builder closed BEFORE the parent
-- 
2.43.0


From d394a018abbe36f99cb04a844c5c77b0921e2a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 15/49] fix: make a new disk collection's directory entry
 durable

---
 include/index/disk/disk_collection.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index ea44831..83ae5be 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -761,6 +761,9 @@ class DiskCollection {
     detail::publish_collection_manifest_atomic_only(path_, manifest_);
     try {
       detail::fsync_dir(path_);
+      // The entry of path_ itself lives in its parent directory.
+      const auto parent = path_.parent_path();
+      detail::fsync_dir(parent.empty() ? std::filesystem::path(".") : parent);
     } catch (const std::exception &e) {
       LOG_WARN("DiskCollection: ctor fsync_dir failed (durability only): {}", e.what());
     }
-- 
2.43.0


From 9b710b4e973a6ca846d6e925bb4d77b7307a0d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 16/49] fix: let a flush be retried after its segment was
 published but not opened

---
 include/index/disk/disk_collection.hpp | 35 ++++++++++++++++++++------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index 83ae5be..f68b84c 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -927,12 +927,18 @@ class DiskCollection {
     // the dispatch decision in one place. The factory call also constructs
     // the searcher, so a builder-side or open-side failure is reported from
     // a single throw site.
-    auto searcher = create_segment_from_pending(seg_dir,
-                                                manifest_,
-                                                pending_vectors_.data(),
-                                                pending_labels_.data(),
-                                                pending_labels_.size(),
-                                                vamana_params_);
+    std::shared_ptr<SegmentSearcher> searcher;
+    try {
+      searcher = create_segment_from_pending(seg_dir,
+                                             manifest_,
+                                             pending_vectors_.data(),
+                                             pending_labels_.data(),
+                                             pending_labels_.size(),
+                                             vamana_params_);
+    } catch (...) {
+      retire_segment_id_if_published(seg_dir, seg_id);
+      throw;
+    }
     // Segment is now on disk. Any subsequent failure in this function leaves
     // an orphan segment that will be classified as kind=complete on next open.
     // Eagerly advance in-memory next_segment_id so a retried flush() uses a
@@ -1012,7 +1018,13 @@ class DiskCollection {
     const std::string seg_basename = detail::format_segment_id(seg_id);
     const auto seg_dir = path_ / "segments" / seg_basename;
 
-    auto searcher = import_segment_from_artifacts(seg_dir, manifest_, src_dir, labels, n);
+    std::shared_ptr<SegmentSearcher> searcher;
+    try {
+      searcher = import_segment_from_artifacts(seg_dir, manifest_, src_dir, labels, n);
+    } catch (...) {
+      retire_segment_id_if_published(seg_dir, seg_id);
+      throw;
+    }
 
     // Segment is now on disk. Match flush(): advance next_segment_id before
     // manifest publication so a retry after manifest-publish failure uses a
@@ -1252,6 +1264,15 @@ class DiskCollection {
  private:
   DiskCollection() = default;
 
+  // A segment that was published but could not be opened keeps its directory;
+  // a retry must not collide with it.
+  void retire_segment_id_if_published(const std::filesystem::path &seg_dir, uint64_t seg_id) {
+    std::error_code ec;
+    if (std::filesystem::exists(seg_dir, ec)) {
+      manifest_.next_segment_id = seg_id + 1;
+    }
+  }
+
   void open_listed_segments() {
     segments_.reserve(manifest_.segment_ids.size());
     segment_dirs_.reserve(manifest_.segment_ids.size());
-- 
2.43.0


From fe3e21efa3f2758ac3aeb6d585402190a8c14d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:34 +0000
Subject: [PATCH 17/49] fix: count only rows that were stored or removed in
 vector spaces

---
 include/space/raw_space.hpp            | 10 ++++++++--
 include/space/sq4_space.hpp            |  8 +++++---
 include/space/sq8_space.hpp            |  8 +++++---
 include/storage/sequential_storage.hpp |  4 ++--
 4 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index 5ac04a0..ee332dc 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -163,6 +163,9 @@ class RawSpace {
    */
   auto insert(const DataType *data, const ScalarDataType *scalar_data = nullptr) -> IDType {
     auto id = data_storage_.insert(data);
+    if (id == static_cast<IDType>(-1)) {
+      return id;
+    }
     item_cnt_++;
     if constexpr (has_scalar_data) {
       if (scalar_data != nullptr && scalar_storage_ != nullptr) {
@@ -180,13 +183,16 @@ class RawSpace {
    * @param id the id of the data point to delete
    */
   auto remove(IDType id) -> IDType {
-    delete_cnt_++;
     if constexpr (has_scalar_data) {
       if (scalar_storage_ != nullptr) {
         scalar_storage_->remove(id);
       }
     }
-    return data_storage_.remove(id);
+    auto removed = data_storage_.remove(id);
+    if (removed != static_cast<IDType>(-1)) {
+      delete_cnt_++;
+    }
+    return removed;
   }
 
   auto remove(const std::string &item_id) -> IDType {
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index ec50c9f..9026162 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -308,8 +308,6 @@ class SQ4Space {
    * @return IDType The ID of the deleted data point
    */
   auto remove(IDType id) -> IDType {
-    delete_cnt_++;
-
     // Remove ScalarData if present
     if constexpr (has_scalar_data) {  // NOLINT
       if (scalar_storage_ != nullptr) {
@@ -317,7 +315,11 @@ class SQ4Space {
       }
     }
 
-    return data_storage_.remove(id);
+    auto removed = data_storage_.remove(id);
+    if (removed != static_cast<IDType>(-1)) {
+      delete_cnt_++;
+    }
+    return removed;
   }
 
   /**
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index b8808ba..d44707d 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -307,8 +307,6 @@ class SQ8Space {
    * @return IDType The ID of the deleted data point
    */
   auto remove(IDType id) -> IDType {
-    delete_cnt_++;
-
     // Remove ScalarData if present
     if constexpr (has_scalar_data) {  // NOLINT
       if (scalar_storage_ != nullptr) {
@@ -316,7 +314,11 @@ class SQ8Space {
       }
     }
 
-    return data_storage_.remove(id);
+    auto removed = data_storage_.remove(id);
+    if (removed != static_cast<IDType>(-1)) {
+      delete_cnt_++;
+    }
+    return removed;
   }
 
   /**
diff --git a/include/storage/sequential_storage.hpp b/include/storage/sequential_storage.hpp
index dd63300..91d52fd 100644
--- a/include/storage/sequential_storage.hpp
+++ b/include/storage/sequential_storage.hpp
@@ -79,7 +79,7 @@ struct SequentialStorage {
   }
 
   auto remove(IDType id) -> IDType {
-    if (!is_valid(id)) {
+    if (id >= capacity_ || !is_valid(id)) {
       return -1;
     }
     bitmap_[id / kBitEveryByte] &= ~(1 << (id % kBitEveryByte));
@@ -87,7 +87,7 @@ struct SequentialStorage {
   }
 
   auto update(IDType id, const DataType *data) -> IDType {
-    if (!is_valid(id)) {
+    if (id >= capacity_ || !is_valid(id)) {
       return -1;
     }
     std::memcpy(operator[](id), data, item_size_);
-- 
2.43.0


From 888f45db98525f2eb6f54421597b31cb499c532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:34 +0000
Subject: [PATCH 18/49] fix: refuse vector space files that were cut short

---
 include/space/sq4_space.hpp            | 3 +++
 include/space/sq8_space.hpp            | 3 +++
 include/storage/sequential_storage.hpp | 9 +++++++++
 3 files changed, 15 insertions(+)

diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index 9026162..6890409 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -364,6 +364,9 @@ class SQ4Space {
 
     data_storage_.load(reader);
     quantizer_.load(reader);
+    if (!reader) {
+      throw std::runtime_error("Truncated file " + std::string(filename));
+    }
     LOG_INFO("SQ4Space is loaded from {}", filename);
   }
 
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index d44707d..af4c773 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -363,6 +363,9 @@ class SQ8Space {
 
     data_storage_.load(reader);
     quantizer_.load(reader);
+    if (!reader) {
+      throw std::runtime_error("Truncated file " + std::string(filename));
+    }
     LOG_INFO("SQ8Space is loaded from {}", filename);
   }
 
diff --git a/include/storage/sequential_storage.hpp b/include/storage/sequential_storage.hpp
index 91d52fd..1a126e8 100644
--- a/include/storage/sequential_storage.hpp
+++ b/include/storage/sequential_storage.hpp
@@ -9,6 +9,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <fstream>
+#include <stdexcept>
 #include "utils/math.hpp"
 #include "utils/platform.hpp"
 
@@ -108,15 +109,20 @@ struct SequentialStorage {
   auto load(std::ifstream &reader) -> void {
     if (data_ != nullptr) {
       alaya_aligned_free_impl(data_);
+      data_ = nullptr;
     }
     if (bitmap_ != nullptr) {
       alaya_aligned_free_impl(bitmap_);
+      bitmap_ = nullptr;
     }
     reader.read(reinterpret_cast<char *>(&item_size_), sizeof(item_size_));
     reader.read(reinterpret_cast<char *>(&aligned_item_size_), sizeof(aligned_item_size_));
     reader.read(reinterpret_cast<char *>(&capacity_), sizeof(capacity_));
     reader.read(reinterpret_cast<char *>(&pos_), sizeof(pos_));
     reader.read(reinterpret_cast<char *>(&alignment_), sizeof(alignment_));
+    if (!reader) {
+      throw std::runtime_error("SequentialStorage: truncated header");
+    }
 
     data_ = static_cast<DataType *>(
         alaya_aligned_alloc_impl(aligned_item_size_ * capacity_, alignment_));
@@ -126,6 +132,9 @@ struct SequentialStorage {
         math::round_up_pow2((capacity_ + kBitEveryByte - 1) / kBitEveryByte, alignment_);
     bitmap_ = static_cast<uint8_t *>(alaya_aligned_alloc_impl(bitmap_size, alignment_));
     reader.read(reinterpret_cast<char *>(bitmap_), (capacity_ + kBitEveryByte - 1) / kBitEveryByte);
+    if (!reader) {
+      throw std::runtime_error("SequentialStorage: truncated data");
+    }
   }
 };
 
-- 
2.43.0


From 993e1b77fa46511c7f6de2e0fbb1d455f87c7954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:34 +0000
Subject: [PATCH 19/49] fix: report failed writes when a vector space is saved

---
 include/space/raw_space.hpp | 4 ++++
 include/space/sq4_space.hpp | 4 ++++
 include/space/sq8_space.hpp | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index ee332dc..3bd04fe 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -409,6 +409,10 @@ class RawSpace {
     }
 
     data_storage_.save(writer);
+    writer.close();
+    if (!writer) {
+      throw std::runtime_error("Failed to write file " + std::string(filename));
+    }
     LOG_INFO("RawSpace is saved to {}", filename);
   }
 
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index 6890409..8ba9c88 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -393,6 +393,10 @@ class SQ4Space {
 
     data_storage_.save(writer);
     quantizer_.save(writer);
+    writer.close();
+    if (!writer) {
+      throw std::runtime_error("Failed to write file " + std::string(filename));
+    }
     LOG_INFO("SQ4Space is saved to {}", filename);
   }
 
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index af4c773..6399cc4 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -392,6 +392,10 @@ class SQ8Space {
 
     data_storage_.save(writer);
     quantizer_.save(writer);
+    writer.close();
+    if (!writer) {
+      throw std::runtime_error("Failed to write file " + std::string(filename));
+    }
     LOG_INFO("SQ8Space is saved to {}", filename);
   }
   /**
-- 
2.43.0


From 943db0e726905beda728b6ab460d4c65df52ac25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 20/49] fix: refuse graph files that were cut short

---
 include/index/graph/graph.hpp         | 3 +++
 include/index/graph/overlay_graph.hpp | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/index/graph/graph.hpp b/include/index/graph/graph.hpp
index 3a9c0d2..e16dc69 100644
--- a/include/index/graph/graph.hpp
+++ b/include/index/graph/graph.hpp
@@ -204,6 +204,9 @@ struct Graph {
     int nep;
 
     reader.read(reinterpret_cast<char *>(&nep), 4);
+    if (!reader) {
+      throw std::runtime_error("Truncated graph file " + std::string(filename));
+    }
     eps_.resize(nep);
     reader.read(reinterpret_cast<char *>(eps_.data()), nep * sizeof(NodeIDType));
     reader.read(reinterpret_cast<char *>(&max_nodes_), sizeof(NodeIDType));
diff --git a/include/index/graph/overlay_graph.hpp b/include/index/graph/overlay_graph.hpp
index fe5ef46..55c3086 100644
--- a/include/index/graph/overlay_graph.hpp
+++ b/include/index/graph/overlay_graph.hpp
@@ -143,6 +143,9 @@ class OverlayGraph {
     reader.read(reinterpret_cast<char *>(&node_num_), 4);
     reader.read(reinterpret_cast<char *>(&max_nbrs_), 4);
     reader.read(reinterpret_cast<char *>(&ep_), 4);
+    if (!reader) {
+      throw std::runtime_error("Truncated overlay graph");
+    }
 
     levels_.clear();
     lists_.clear();
@@ -152,6 +155,9 @@ class OverlayGraph {
     for (NodeIDType i = 0; i < node_num_; ++i) {
       int cur;
       reader.read(reinterpret_cast<char *>(&cur), 4);
+      if (!reader) {
+        throw std::runtime_error("Truncated overlay graph");
+      }
       levels_[i] = cur / max_nbrs_;
 
       if (lists_[i].capacity() < static_cast<size_t>(cur)) {
@@ -162,6 +168,9 @@ class OverlayGraph {
 
       reader.read(reinterpret_cast<char *>(lists_[i].data()), cur * 4);
     }
+    if (!reader) {
+      throw std::runtime_error("Truncated overlay graph");
+    }
   }
 
   /**
-- 
2.43.0


From 16f064d3bf672c9135077b0a158cfc6cb118cab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 21/49] fix: report failed writes when a graph is saved

---
 include/index/graph/graph.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/index/graph/graph.hpp b/include/index/graph/graph.hpp
index e16dc69..361b83c 100644
--- a/include/index/graph/graph.hpp
+++ b/include/index/graph/graph.hpp
@@ -185,6 +185,10 @@ struct Graph {
     if (overlay_graph_) {
       overlay_graph_->save(writer);
     }
+    writer.close();
+    if (!writer) {
+      throw std::runtime_error("Failed to write file " + std::string(filename));
+    }
     LOG_INFO("Graph Saving done in {}\n", filename);
   }
 
-- 
2.43.0


From e51d8497d6ad8190421f9cb2b7128df542d8d5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 22/49] fix: never link a node to itself or to unused slots
 when updating its neighbours

---
 include/executor/jobs/graph_update_job.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/executor/jobs/graph_update_job.hpp b/include/executor/jobs/graph_update_job.hpp
index 4cc9033..967ddeb 100644
--- a/include/executor/jobs/graph_update_job.hpp
+++ b/include/executor/jobs/graph_update_job.hpp
@@ -180,12 +180,13 @@ class GraphUpdateJob {
     }
     auto handler = space_->get_query_computer(node_id);
     LinearPool<DistanceType, IDType> pool(space_->get_data_num(), graph_->max_nbrs_);
+    candidate_nbrs.erase(node_id);
     for (auto &nbr : candidate_nbrs) {
       auto dist = handler(nbr);
       pool.insert(nbr, dist);
     }
 
-    std::vector<IDType> updated_edges(graph_->max_nbrs_);
+    std::vector<IDType> updated_edges(graph_->max_nbrs_, static_cast<IDType>(-1));
     for (IDType i = 0; i < graph_->max_nbrs_ && i < pool.size(); i++) {
       updated_edges[i] = pool.id(i);
     }
-- 
2.43.0


From 3629f3296ceb34513aace6f15eb745f681184c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 23/49] fix: keep rows inserted next to removed ones reachable

---
 include/executor/jobs/graph_update_job.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/executor/jobs/graph_update_job.hpp b/include/executor/jobs/graph_update_job.hpp
index 967ddeb..2f746ae 100644
--- a/include/executor/jobs/graph_update_job.hpp
+++ b/include/executor/jobs/graph_update_job.hpp
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cassert>
 #include <cstdint>
 #include <limits>
@@ -117,12 +118,13 @@ class GraphUpdateJob {
 
   auto remove(IDType node_id) -> void {
     auto nbrs = graph_->edges(node_id);
+    auto &removed_nbrs = job_context_->removed_node_nbrs_[node_id];
     for (IDType i = 0; i < graph_->max_nbrs_; i++) {
       auto nbr = nbrs[i];
       if (nbr == static_cast<IDType>(-1)) {
         break;
       }
-      job_context_->removed_node_nbrs_[node_id].push_back(nbr);
+      removed_nbrs.push_back(nbr);
     }
     job_context_->removed_vertices_.insert(node_id);
     graph_->remove(node_id);
@@ -144,12 +146,13 @@ class GraphUpdateJob {
         build_space_->remove(internal_id);
       }
       auto nbrs = graph_->edges(internal_id);
+      auto &removed_nbrs = job_context_->removed_node_nbrs_[internal_id];
       for (IDType i = 0; i < graph_->max_nbrs_; i++) {
         auto nbr = nbrs[i];
         if (nbr == static_cast<IDType>(-1)) {
           break;
         }
-        job_context_->removed_node_nbrs_[internal_id].push_back(nbr);
+        removed_nbrs.push_back(nbr);
       }
       job_context_->removed_vertices_.insert(internal_id);
       graph_->remove(internal_id);
@@ -190,7 +193,14 @@ class GraphUpdateJob {
     for (IDType i = 0; i < graph_->max_nbrs_ && i < pool.size(); i++) {
       updated_edges[i] = pool.id(i);
     }
-    graph_->update(node_id, updated_edges.data());
+    if (graph_->update(node_id, updated_edges.data()) == invalid_id()) {
+      // Searches still pass through removed nodes, so their links have to follow as well.
+      std::copy(updated_edges.begin(), updated_edges.end(), graph_->edges(node_id));
+      auto removed = job_context_->removed_node_nbrs_.find(node_id);
+      if (removed != job_context_->removed_node_nbrs_.end()) {
+        removed->second.assign(updated_edges.begin(), updated_edges.begin() + pool.size());
+      }
+    }
   }
 
  private:
-- 
2.43.0


From 44f66a2f46c85c35f0fa0fcf68b743ee935580ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:37 +0000
Subject: [PATCH 24/49] fix: keep row numbers and counts in step when a row's
 scalar data cannot be stored

---
 include/space/raw_space.hpp | 2 ++
 include/space/sq4_space.hpp | 2 +-
 include/space/sq8_space.hpp | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index 3bd04fe..800dc3d 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -170,6 +170,8 @@ class RawSpace {
     if constexpr (has_scalar_data) {
       if (scalar_data != nullptr && scalar_storage_ != nullptr) {
         if (!scalar_storage_->insert(id, *scalar_data)) {
+          data_storage_.remove(id);
+          delete_cnt_++;
           throw std::runtime_error("Failed to insert ScalarData");
         }
       }
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index 8ba9c88..4e94a9c 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -291,7 +291,7 @@ class SQ4Space {
         if (!scalar_storage_->insert(id, *scalar_data)) {
           LOG_ERROR("Failed to insert ScalarData for ID {}", id);
           data_storage_.remove(id);
-          item_cnt_--;
+          delete_cnt_++;
           throw std::runtime_error("Failed to insert ScalarData");
         }
       }
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index 6399cc4..9ba025e 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -290,7 +290,7 @@ class SQ8Space {
         if (!scalar_storage_->insert(id, *scalar_data)) {
           LOG_ERROR("Failed to insert ScalarData for ID {}", id);
           data_storage_.remove(id);
-          item_cnt_--;
+          delete_cnt_++;
           throw std::runtime_error("Failed to insert ScalarData");
         }
       }
-- 
2.43.0


From a99c0ea30b95f3d9e14a14f82cdbb45477cd40b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:01 +0000
Subject: [PATCH 25/49] fix: reopen disk collections whose graph seed does not
 fit 32 bits

---
 include/index/disk/disk_collection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index f68b84c..8b11fcb 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -599,7 +599,7 @@ inline auto load_vamana_params_from_manifest(const CollectionManifest &manifest)
   params.R = parse_u32_extra(manifest, "x_vamana_R", params.R);
   params.L = parse_u32_extra(manifest, "x_vamana_L", params.L);
   params.alpha = parse_float_extra(manifest, "x_vamana_alpha", params.alpha);
-  params.seed = parse_u32_extra(manifest, "x_vamana_seed", static_cast<uint32_t>(params.seed));
+  params.seed = parse_u64_extra(manifest, "x_vamana_seed", params.seed);
   params.num_threads = parse_u32_extra(manifest, "x_vamana_num_threads", params.num_threads);
   return params;
 }
-- 
2.43.0


From 0e902a9499f7efeb19aa39e39561dd40b18c4520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:01 +0000
Subject: [PATCH 26/49] fix: refuse collections that list a segment twice or
 one of another dimension or metric

---
 include/index/disk/disk_collection.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index 8b11fcb..49a5bf9 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -1286,6 +1286,17 @@ class DiskCollection {
         throw std::runtime_error("DiskCollection: segment directory is a symlink: " +
                                  seg_dir.string());
       }
+      if (std::find(segment_dirs_.begin(), segment_dirs_.end(), seg_dir) != segment_dirs_.end()) {
+        throw std::runtime_error("DiskCollection: segment is listed twice: " + seg_dir.string());
+      }
+      // Searches read dim() floats of every query and merge distances across
+      // segments, so a segment of another dimension or metric cannot be used.
+      const auto sm = SegmentManifest::load(seg_dir / "manifest.txt");
+      if (sm.dim != manifest_.dim || sm.metric != manifest_.metric) {
+        throw std::runtime_error(
+            "DiskCollection: segment dimension or metric differs from the collection: " +
+            seg_dir.string());
+      }
       auto searcher = load_segment_from_manifest(seg_dir);
       segments_.push_back(std::move(searcher));
       segment_dirs_.push_back(seg_dir);
-- 
2.43.0


From 252aaa828ffd75dfb435746f5b3a69e113518d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:17 +0000
Subject: [PATCH 27/49] fix: report failed writes when a RaBitQ space is saved

---
 include/space/rabitq_space.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/space/rabitq_space.hpp b/include/space/rabitq_space.hpp
index 5b6d5e4..419d670 100644
--- a/include/space/rabitq_space.hpp
+++ b/include/space/rabitq_space.hpp
@@ -595,6 +595,10 @@ class RaBitQSpace {
     storage_.save(writer);
 
     quantizer_->save(writer);
+    writer.close();
+    if (!writer) {
+      throw std::runtime_error("Failed to write file " + std::string(filename));
+    }
 
     LOG_INFO("RaBitQSpace is successfully saved to {}.", filename);
   }
-- 
2.43.0


From a8e0b1d74b3c3054509018729be3f295fd796af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:17 +0000
Subject: [PATCH 28/49] fix: refuse RaBitQ space files that were cut short

---
 include/space/rabitq_space.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/space/rabitq_space.hpp b/include/space/rabitq_space.hpp
index 419d670..25cf04c 100644
--- a/include/space/rabitq_space.hpp
+++ b/include/space/rabitq_space.hpp
@@ -616,6 +616,9 @@ class RaBitQSpace {
     reader.read(reinterpret_cast<char *>(&capacity_), sizeof(capacity_));
     reader.read(reinterpret_cast<char *>(&type_), sizeof(type_));
     reader.read(reinterpret_cast<char *>(&ep_), sizeof(ep_));
+    if (!reader) {
+      throw std::runtime_error("RaBitQ space file is truncated: " + std::string(filename));
+    }
 
     if constexpr (has_scalar_data) {
       load_scalar_config(reader);
@@ -632,6 +635,9 @@ class RaBitQSpace {
 
     quantizer_ = std::make_unique<RaBitQQuantizer<DataType>>();
     quantizer_->load(reader);
+    if (!reader) {
+      throw std::runtime_error("RaBitQ space file is truncated: " + std::string(filename));
+    }
 
     LOG_INFO("RaBitQSpace is successfully loaded from {}", filename);
   }
-- 
2.43.0


From 6581b50ba78c5a1b3db53b12e56c49c8d491c0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:17 +0000
Subject: [PATCH 29/49] fix: mark the places a RaBitQ search could not fill

---
 include/executor/jobs/graph_search_job.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/executor/jobs/graph_search_job.hpp b/include/executor/jobs/graph_search_job.hpp
index 8b85bf4..41b2a45 100644
--- a/include/executor/jobs/graph_search_job.hpp
+++ b/include/executor/jobs/graph_search_job.hpp
@@ -410,6 +410,7 @@ struct GraphSearchJob {
     visited_pool_->release(vis);
 
     // return result
+    fill_invalid_ids(ids, 0, k);
     res_pool.copy_results_to(reinterpret_cast<uint32_t *>(ids));
   }
 
@@ -482,6 +483,7 @@ struct GraphSearchJob {
     visited_pool_->release(vis);
 
     // return result
+    fill_invalid_ids(ids, 0, k);
     res_pool.copy_results_to(reinterpret_cast<uint32_t *>(ids));
 
     co_return;
-- 
2.43.0


From 76e6d2a17ecd2e4e93847259dc259a0b1eb7fced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 30/49] fix: build quantized graphs for collections smaller
 than the degree bound

---
 include/index/graph/qg/qg_builder.hpp | 11 ++++++++---
 include/space/rabitq_space.hpp        | 12 +++++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/index/graph/qg/qg_builder.hpp b/include/index/graph/qg/qg_builder.hpp
index d69de3f..800e9ab 100644
--- a/include/index/graph/qg/qg_builder.hpp
+++ b/include/index/graph/qg/qg_builder.hpp
@@ -107,6 +107,11 @@ class QGBuilder {
   // std::unique_ptr<Graph<DataType, IDType>> final_graph_;
   std::shared_ptr<DistanceSpaceType> space_;
 
+  /// A node has at most num_nodes_ - 1 distinct neighbors, however large the degree bound is.
+  [[nodiscard]] auto reachable_degree() const -> size_t {
+    return std::min(degree_bound_, num_nodes_ - 1);
+  }
+
   void iter(bool sup) {
     if (sup) {
       for (size_t i = 0; i < num_nodes_; ++i) {
@@ -127,7 +132,7 @@ class QGBuilder {
     // update result with space and graph in the end of every iteration
     ALAYA_OMP_PARALLEL_FOR_DYNAMIC
     for (int64_t i = 0; i < static_cast<int64_t>(num_nodes_); ++i) {
-      if (sup && new_neighbors_[i].size() < degree_bound_) {
+      if (sup && new_neighbors_[i].size() < reachable_degree()) {
         LOG_ERROR("After supplement, node_{} only has {} neighbors.", i, new_neighbors_[i].size());
       }
       space_->update_nei(i, new_neighbors_[i]);
@@ -260,7 +265,7 @@ class QGBuilder {
         for (auto &neighbor : new_result) {
           ids.emplace(neighbor.id_);
         }
-        while (new_result.size() < degree_bound_) {
+        while (new_result.size() < reachable_degree()) {
           IDType rand_id = rand_integer<IDType>(0, static_cast<IDType>(num_nodes_) - 1);
           if (rand_id != static_cast<IDType>(i) && ids.find(rand_id) == ids.end()) {
             new_result.emplace_back(rand_id, space_->get_distance(rand_id, i));
@@ -505,7 +510,7 @@ class QGBuilder {
       // generate random neighbors
       std::unordered_set<IDType> neighbor_set;
       neighbor_set.reserve(degree_bound_);
-      while (neighbor_set.size() < degree_bound_) {
+      while (neighbor_set.size() < reachable_degree()) {
         IDType rand_id = rand_integer<IDType>(0, num_nodes_ - 1);
         if (rand_id != static_cast<IDType>(i)) {
           neighbor_set.emplace(rand_id);
diff --git a/include/space/rabitq_space.hpp b/include/space/rabitq_space.hpp
index 25cf04c..49ec511 100644
--- a/include/space/rabitq_space.hpp
+++ b/include/space/rabitq_space.hpp
@@ -237,15 +237,21 @@ class RaBitQSpace {
 
   void update_nei(IDType c, const std::vector<Neighbor<IDType, DistanceType>> &new_neighbors) {
     size_t cur_degree = new_neighbors.size();
-    if (cur_degree == 0) {
-      return;
-    }
 
     auto nei_ptr = get_edges(c);
     // update neighbors' IDs
     for (size_t i = 0; i < cur_degree; ++i) {
       *(nei_ptr + i) = new_neighbors[i].id_;
     }
+    // searches scan all kDegreeBound edges: let the unused ones point back to the node itself
+    for (size_t i = cur_degree; i < kDegreeBound; ++i) {
+      *(nei_ptr + i) = c;
+      *(get_f_add_ptr(c) + i) = 0;
+      *(get_f_rescale_ptr(c) + i) = 0;
+    }
+    if (cur_degree == 0) {
+      return;
+    }
 
     // rotate data before quantization
     std::vector<DataType> rotated_neighbors(cur_degree * get_padded_dim());
-- 
2.43.0


From daced82c8fe05913a334cef1656377007a6b3858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:37 +0000
Subject: [PATCH 31/49] fix: keep RaBitQ estimates exact beyond 1028 dimensions

---
 include/utils/rabitq_utils/fastscan.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/utils/rabitq_utils/fastscan.hpp b/include/utils/rabitq_utils/fastscan.hpp
index 55f268c..22c6349 100644
--- a/include/utils/rabitq_utils/fastscan.hpp
+++ b/include/utils/rabitq_utils/fastscan.hpp
@@ -18,6 +18,7 @@
 
 #include "utils/platform.hpp"
 
+#include <algorithm>
 #include <array>
 #include <cassert>
 #include <cstdint>
@@ -32,6 +33,9 @@
 
 namespace alaya::fastscan {
 constexpr static size_t kBatchSize = 32;  // number of vectors in each batch
+// 16-bit sums hold 257 table entries of up to 255, i.e. 1028 dimensions: longer codes are summed in
+// several passes
+constexpr static size_t kMaxDimPerPass = 1024;
 
 inline auto log_scalar_fastscan_fallback() -> void {
   LOG_INFO_ONCE("rabitq fallback: AVX-512 fastscan is unavailable, using portable fallback path");
@@ -321,6 +325,24 @@ inline void accumulate_and_estimate_distances(const uint8_t *ALAYA_RESTRICT code
                                               size_t dim) {
   static_assert(std::is_same_v<T, float>,
                 "fastscan::accumulate_and_estimate_distances only supports float.");
+  if (dim > kMaxDimPerPass) {
+    alignas(64) std::array<uint16_t, kBatchSize> pass{};
+    std::array<uint32_t, kBatchSize> nth_segments{};
+    for (size_t off = 0; off < dim; off += kMaxDimPerPass) {
+      accumulate(codes + (off << 2),
+                 lp_table + (off << 2),
+                 pass.data(),
+                 std::min(kMaxDimPerPass, dim - off));
+      for (size_t i = 0; i < kBatchSize; ++i) {
+        nth_segments[i] += pass[i];
+      }
+    }
+    for (size_t i = 0; i < kBatchSize; ++i) {
+      const auto inner = static_cast<T>(nth_segments[i]) * lut_delta + lut_bias;
+      result[i] = f_rescale[i] * inner + f_add[i] + g_add;
+    }
+    return;
+  }
   if ((dim & 0x0FU) != 0U) {
     log_scalar_fastscan_fallback();
     alignas(64) std::array<uint16_t, kBatchSize> nth_segments{};
-- 
2.43.0


From c712d5f649444bb7c682dd8054f2d0108138daf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:01 +0000
Subject: [PATCH 32/49] fix: keep LASER query codes within their six bits

---
 include/index/graph/laser/utils/scalar_quantize.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/index/graph/laser/utils/scalar_quantize.hpp b/include/index/graph/laser/utils/scalar_quantize.hpp
index bdb75ba..3d092ba 100644
--- a/include/index/graph/laser/utils/scalar_quantize.hpp
+++ b/include/index/graph/laser/utils/scalar_quantize.hpp
@@ -13,10 +13,12 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <cstdint>
 
+#include "index/graph/laser/common.hpp"
 #include "simd/laser_dispatch.hpp"
 #include "utils/platform.hpp"
 
@@ -57,7 +59,10 @@ void quantize(T *ALAYA_RESTRICT result,
     // for +0.34 % Recall@10. See:
     //   results/gist1m/dsqg/recall_qps_fix_comparison.png
     // Re-test before assuming this trade-off survives a kernel rewrite.
-    cur = static_cast<T>(std::lround(((vec[i] - lo) * one_over_width) + 0.5));
+    // The bias may lift the largest value one past the last code; four of those would not fit into
+    // an 8-bit lookup table entry.
+    cur = static_cast<T>(
+        std::min(std::lround(((vec[i] - lo) * one_over_width) + 0.5), (1L << QG_BQUERY) - 1));
     result[i] = cur;
     sum += cur;
   }
-- 
2.43.0


From 273a802433d5908b074870059eafc9071e5bf776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:01 +0000
Subject: [PATCH 33/49] fix: keep LASER estimates exact for long codes

---
 include/index/graph/laser/qg/qg_scanner.hpp | 46 +++++++++++++++++----
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/include/index/graph/laser/qg/qg_scanner.hpp b/include/index/graph/laser/qg/qg_scanner.hpp
index 20f7b19..3a4152d 100644
--- a/include/index/graph/laser/qg/qg_scanner.hpp
+++ b/include/index/graph/laser/qg/qg_scanner.hpp
@@ -17,6 +17,9 @@
 
 #pragma once
 
+#include <algorithm>
+#include <array>
+#include <cstddef>
 #include <cstdint>
 #include <vector>
 
@@ -33,6 +36,10 @@ namespace alaya::laser {
  */
 class QGScanner {
  private:
+  // A lookup table entry is at most 4 * 63, there is one per 4 dimensions.
+  static constexpr size_t kMaxDimSigned = 512;    ///< sums fit into a signed 16-bit number
+  static constexpr size_t kMaxDimPerPass = 1024;  ///< sums fit into an unsigned 16-bit number
+
   size_t padded_dim_ = 0;
   size_t degree_bound_ = 0;
   simd::AccumulateFn accumulate_ = nullptr;
@@ -62,17 +69,38 @@ class QGScanner {
                       int32_t sumq,
                       const uint8_t *packed_code,
                       const float *factor) const {
-    std::vector<uint16_t> result(degree_bound_);
+    std::vector<float> result_float(degree_bound_);
+    if (padded_dim_ <= kMaxDimSigned) {
+      std::vector<uint16_t> result(degree_bound_);
 
-    /* Compute block by block */
-    for (size_t i = 0; i < degree_bound_; i += kBatchSize) {
-      accumulate_(padded_dim_, packed_code, LUT, &result[i]);
-      packed_code = &packed_code[padded_dim_ << 2];
-    }
+      /* Compute block by block */
+      for (size_t i = 0; i < degree_bound_; i += kBatchSize) {
+        accumulate_(padded_dim_, packed_code, LUT, &result[i]);
+        packed_code = &packed_code[padded_dim_ << 2];
+      }
 
-    /* Cast to float, multiply by 2, subtract sumq. */
-    std::vector<float> result_float(degree_bound_);
-    convert_(degree_bound_, result.data(), sumq, result_float.data());
+      /* Cast to float, multiply by 2, subtract sumq. */
+      convert_(degree_bound_, result.data(), sumq, result_float.data());
+    } else {
+      /* The sums of a long code do not fit into 16 bits: add them up in several passes. */
+      for (size_t i = 0; i < degree_bound_; i += kBatchSize) {
+        std::array<int32_t, kBatchSize> sums{};
+        std::array<uint16_t, kBatchSize> pass;
+        for (size_t off = 0; off < padded_dim_; off += kMaxDimPerPass) {
+          accumulate_(std::min(kMaxDimPerPass, padded_dim_ - off),
+                      &packed_code[off << 2],
+                      &LUT[off << 2],
+                      pass.data());
+          for (size_t j = 0; j < kBatchSize; ++j) {
+            sums[j] += pass[j];
+          }
+        }
+        for (size_t j = 0; j < kBatchSize; ++j) {
+          result_float[i + j] = static_cast<float>((2 * sums[j]) - sumq);
+        }
+        packed_code = &packed_code[padded_dim_ << 2];
+      }
+    }
     const float *triple_x = factor;
     const float *fac_dq = &triple_x[degree_bound_];
     const float *fac_vq = &fac_dq[degree_bound_];
-- 
2.43.0


From 65de9910963be4d7e5687143cacedb07e33685da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 34/49] fix: mark the places a LASER search could not fill

---
 include/index/disk/laser_segment_searcher.hpp | 3 +++
 include/index/graph/laser/utils/buffer.hpp    | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/index/disk/laser_segment_searcher.hpp b/include/index/disk/laser_segment_searcher.hpp
index 457e5cf..38ed0a2 100644
--- a/include/index/disk/laser_segment_searcher.hpp
+++ b/include/index/disk/laser_segment_searcher.hpp
@@ -333,6 +333,9 @@ class LaserSegmentSearcher : public SegmentSearcher {
     std::vector<DiskSearchHit> out;
     out.reserve(effective_top_k);
     for (uint32_t pid : pid_buf) {
+      if (pid == alaya::laser::kPidMax) {
+        break;  // fewer rows than top_k can be reached
+      }
       if (pid >= manifest_.count) {
         throw std::runtime_error("LaserSegmentSearcher: QuantizedGraph returned PID " +
                                  std::to_string(pid) + " outside segment count " +
diff --git a/include/index/graph/laser/utils/buffer.hpp b/include/index/graph/laser/utils/buffer.hpp
index de305be..2c94d16 100644
--- a/include/index/graph/laser/utils/buffer.hpp
+++ b/include/index/graph/laser/utils/buffer.hpp
@@ -15,6 +15,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cstddef>
 #include <set>
 #include <vector>
@@ -122,7 +123,11 @@ class ResultBuffer {
 
   const std::vector<PID, memory::AlignedAllocator<PID>> &ids() { return ids_; }
 
-  void copy_results(PID *knn) const { std::copy(ids_.begin(), ids_.end() - 1, knn); }
+  /// Copies the results, nearest first; places that could not be filled hold kPidMax.
+  void copy_results(PID *knn) const {
+    std::copy_n(ids_.begin(), size_, knn);
+    std::fill(knn + size_, knn + capacity_, kPidMax);
+  }
 
  private:
   std::vector<PID, memory::AlignedAllocator<PID>> ids_;
-- 
2.43.0


From 4e7ff63c252aeee01cc405a4e90904aa7557c671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 35/49] fix: keep LASER estimates finite for neighbors equal to
 their vertex

---
 include/index/graph/laser/quantization/rabitq.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/index/graph/laser/quantization/rabitq.hpp b/include/index/graph/laser/quantization/rabitq.hpp
index 93caa06..ad3c1ea 100644
--- a/include/index/graph/laser/quantization/rabitq.hpp
+++ b/include/index/graph/laser/quantization/rabitq.hpp
@@ -113,6 +113,12 @@ static inline void rabitq_factors(const RowMatrix<float> &rotated_data_residual,
 
   for (int64_t j = 0; j < num_points; ++j) {
     double cur_x = x_rotated_norm(j, 0);  // current dist 2 centroid
+    if (cur_x == 0) {  // same vector as the centroid: the distance to the centroid is the estimate
+      triple_x[j] = 0;
+      factor_dq[j] = 0;
+      factor_vq[j] = 0;
+      continue;
+    }
     double cur_x0 = fac_x0(j, 0);         // current <o, o_bar>
     double cur_x1 = fac_x1(j, 0);         // current <c, o_bar>
     long double x_x0 = static_cast<long double>(cur_x) / cur_x0;
-- 
2.43.0


From 1c8896f59d82fe7b07d65542bff123fc05269774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 36/49] fix: store the vectors of LASER vertices without
 neighbors

---
 include/index/graph/laser/qg/qg.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/index/graph/laser/qg/qg.hpp b/include/index/graph/laser/qg/qg.hpp
index 7aec188..cd6d09b 100644
--- a/include/index/graph/laser/qg/qg.hpp
+++ b/include/index/graph/laser/qg/qg.hpp
@@ -761,9 +761,6 @@ inline void QuantizedGraph::update_qg_out_of_memory(
     ThreadData thread_data) {
   size_t cur_degree = new_neighbors.size();
   std::memset(thread_data.cur_page_scratch_, 0, page_size_);
-  if (cur_degree == 0) {
-    return;
-  }
   char *vector_buf = thread_data.neighbor_vector_scratch_;
   char *page_buf = thread_data.cur_page_scratch_;
 
@@ -796,6 +793,9 @@ inline void QuantizedGraph::update_qg_out_of_memory(
 
   // Execute batch read operation to fetch all neighbor vectors and centroid in one I/O call
   vector_reader.read(frontier_read_reqs, thread_data.ctx_);
+  if (cur_degree == 0) {
+    return;  // only the vector itself is stored
+  }
 
   // Write neighbor IDs into the node payload AFTER the read, since the read
   // request above lands `full_page_size` bytes at `page_buf[0..full_page_size]`
-- 
2.43.0


From f6c40ab64d5d2e0fa071c5788e62e6db4a6fc39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 37/49] fix: refuse LASER searches with an empty beam

---
 include/index/graph/laser/qg/qg.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/index/graph/laser/qg/qg.hpp b/include/index/graph/laser/qg/qg.hpp
index cd6d09b..491ac97 100644
--- a/include/index/graph/laser/qg/qg.hpp
+++ b/include/index/graph/laser/qg/qg.hpp
@@ -311,6 +311,10 @@ inline QuantizedGraph::QuantizedGraph(size_t num,
 inline QuantizedGraph::~QuantizedGraph() { destroy_thread_data(); }
 
 inline void QuantizedGraph::set_params(size_t ef_search, size_t num_threads, int beam_width) {
+  if (ef_search == 0 || num_threads == 0 || beam_width <= 0) {
+    throw std::invalid_argument(
+        "QuantizedGraph::set_params: ef_search, num_threads and beam_width must be > 0");
+  }
   this->nthreads_ = num_threads;
   this->max_beam_width_ = beam_width;
   this->ef_search_ = ef_search;
-- 
2.43.0


From 0ae4359c11f4a7ecc2d10f5ed760f705e90eedc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:00 +0000
Subject: [PATCH 38/49] fix: report LASER page reads that failed and keep the
 index searchable

---
 include/index/graph/laser/qg/qg.hpp           | 70 ++++++++++++++++---
 .../graph/laser/utils/aligned_file_reader.hpp |  7 ++
 .../laser/utils/threadpool_file_reader.hpp    | 21 +++++-
 3 files changed, 87 insertions(+), 11 deletions(-)

diff --git a/include/index/graph/laser/qg/qg.hpp b/include/index/graph/laser/qg/qg.hpp
index 491ac97..c11d60b 100644
--- a/include/index/graph/laser/qg/qg.hpp
+++ b/include/index/graph/laser/qg/qg.hpp
@@ -15,6 +15,7 @@
 #include <cstdint>
 #include <cstring>
 #include <deque>
+#include <exception>
 #include <filesystem>  // NOLINT(build/c++17)
 #include <fstream>
 #include <iomanip>
@@ -158,6 +159,11 @@ class QuantizedGraph {
   void disk_search_qg(const float *ALAYA_RESTRICT query,
                       uint32_t knn,
                       uint32_t *ALAYA_RESTRICT results);
+  void disk_search_qg(ThreadData &data,
+                      std::unordered_map<PID, char *> &ongoing_nodes,
+                      const float *ALAYA_RESTRICT query,
+                      uint32_t knn,
+                      uint32_t *ALAYA_RESTRICT results);
 
   void copy_vectors(const float *);
 
@@ -361,10 +367,19 @@ inline void QuantizedGraph::batch_search(const float *ALAYA_RESTRICT query,
                                          size_t num_queries) {
   const int64_t num_queries_signed = static_cast<int64_t>(num_queries);
   const int nthreads_signed = static_cast<int>(nthreads_);
+  std::exception_ptr error;  // must not leave the parallel region
 #pragma omp parallel for schedule(dynamic) num_threads(nthreads_signed)
   for (int64_t ii = 0; ii < num_queries_signed; ++ii) {
     const size_t i = static_cast<size_t>(ii);
-    disk_search_qg(query + i * (dimension_ + residual_dimension_), knn, results + i * knn);
+    try {
+      disk_search_qg(query + i * (dimension_ + residual_dimension_), knn, results + i * knn);
+    } catch (...) {
+#pragma omp critical
+      error = std::current_exception();
+    }
+  }
+  if (error) {
+    std::rethrow_exception(error);
   }
 }
 
@@ -413,6 +428,39 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
     this->thread_data_.wait_for_push_notify();
     data = thread_data_.pop();
   }
+
+  // ongoing_nodes: Maps node IDs to their buffer locations for in-flight I/O requests
+  std::unordered_map<PID, char *> ongoing_nodes;
+  try {
+    disk_search_qg(data, ongoing_nodes, query, knn, results);
+  } catch (...) {
+    // Reads still in flight write into the workspace: collect them before handing it back.
+    try {
+      std::vector<AlignedReadEvent> evts;
+      while (!ongoing_nodes.empty()) {
+        aligned_file_reader_->poll_events(data.ctx_, static_cast<int>(ongoing_nodes.size()), evts);
+        for (const auto &evt : evts) {
+          ongoing_nodes.erase(static_cast<PID>(evt.id));
+        }
+      }
+    } catch (const std::exception &e) {
+      std::cerr << "disk_search_qg: reads may be left over: " << e.what() << std::endl;
+    }
+    thread_data_.push(data);
+    thread_data_.push_notify_all();
+    throw;
+  }
+
+  // Return thread-local data to the concurrent queue for reuse by other threads
+  thread_data_.push(data);
+  thread_data_.push_notify_all();
+}
+
+inline void QuantizedGraph::disk_search_qg(ThreadData &data,
+                                           std::unordered_map<PID, char *> &ongoing_nodes,
+                                           const float *ALAYA_RESTRICT query,
+                                           uint32_t knn,
+                                           uint32_t *ALAYA_RESTRICT results) {
   data.visited_.clear();
   data.search_pool_.clear();
 
@@ -490,9 +538,6 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
   // prepared_nodes: Nodes whose data has been fetched and is ready for processing
   std::deque<std::pair<PID, char *>> prepared_nodes;
 
-  // ongoing_nodes: Maps node IDs to their buffer locations for in-flight I/O requests
-  std::unordered_map<PID, char *> ongoing_nodes;
-
   // free_slots: Pool of available memory buffers for disk reads (double-buffering scheme)
   std::deque<char *> free_slots;
   for (size_t i = 0; i < 2 * max_beam_width_; i++) {
@@ -539,6 +584,7 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
         aligned_file_reader_->poll_events(data.ctx_, static_cast<int>(cur_beam_size), evts);
 
     // Process each completed I/O event
+    int64_t failed_read = static_cast<int64_t>(page_size_);
     for (int i = 0; i < ret; i++) {
       int id = static_cast<int>(evts[i].id);
       if (ongoing_nodes.find(id) == ongoing_nodes.end()) {
@@ -549,6 +595,14 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
       // Move from ongoing to prepared queue
       prepared_nodes.emplace_back(id, ongoing_nodes[id]);
       ongoing_nodes.erase(id);
+      if (evts[i].result != static_cast<int64_t>(page_size_)) {
+        failed_read = evts[i].result;
+      }
+    }
+    if (failed_read != static_cast<int64_t>(page_size_)) {
+      throw std::runtime_error("disk_search_qg: page read failed; returned " +
+                               std::to_string(failed_read) +
+                               ", expected=" + std::to_string(page_size_));
     }
   };
 
@@ -599,7 +653,6 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
         char *slot = free_slots.front();
         assert(slot != nullptr);
         free_slots.pop_front();
-        ongoing_nodes[cur_node] = slot;
         // Create aligned read request (page-aligned for direct I/O)
         frontier_read_reqs.emplace_back(get_page_offset(cur_node), page_size_, cur_node, slot);
       }
@@ -612,6 +665,9 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
       n_hops++;  // Count as one I/O round
       auto submit_start = std::chrono::high_resolution_clock::now();
       n_ops = aligned_file_reader_->submit_reqs(frontier_read_reqs, data.ctx_);
+      for (const auto &req : frontier_read_reqs) {
+        ongoing_nodes[static_cast<PID>(req.id)] = static_cast<char *>(req.buf);
+      }
       io_num += n_ops;
       auto submit_end = std::chrono::high_resolution_clock::now();
       submit_time +=
@@ -679,10 +735,6 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
   // ==================== Copy Results and Cleanup ====================
   // Copy the k nearest neighbor IDs from result pool to output array
   res_pool.copy_results(results);
-
-  // Return thread-local data to the concurrent queue for reuse by other threads
-  thread_data_.push(data);
-  thread_data_.push_notify_all();
 }
 
 // scan a data row (including data vec and quantization codes for its neighbors)
diff --git a/include/index/graph/laser/utils/aligned_file_reader.hpp b/include/index/graph/laser/utils/aligned_file_reader.hpp
index 75bf21c..6305a81 100644
--- a/include/index/graph/laser/utils/aligned_file_reader.hpp
+++ b/include/index/graph/laser/utils/aligned_file_reader.hpp
@@ -266,6 +266,13 @@ inline void execute_io(io_context_t ctx,
       } else {
         // wait for the whole batch (drains partial deliveries after interrupts)
         io_getevents_exact(ctx, evts.data(), static_cast<int64_t>(n_ops), "LinuxAlignedFileReader");
+        for (const auto &evt : evts) {
+          if (static_cast<int64_t>(evt.res) != static_cast<int64_t>(evt.obj->u.c.nbytes)) {
+            throw std::runtime_error("LinuxAlignedFileReader: read failed; returned " +
+                                     std::to_string(static_cast<int64_t>(evt.res)) +
+                                     ", expected=" + std::to_string(evt.obj->u.c.nbytes));
+          }
+        }
         break;
       }
     }
diff --git a/include/index/graph/laser/utils/threadpool_file_reader.hpp b/include/index/graph/laser/utils/threadpool_file_reader.hpp
index d49e446..ea49f02 100644
--- a/include/index/graph/laser/utils/threadpool_file_reader.hpp
+++ b/include/index/graph/laser/utils/threadpool_file_reader.hpp
@@ -202,12 +202,29 @@ inline void ThreadPoolFileReader::read(std::vector<AlignedRead> &read_reqs,
     return;
   }
 
-  std::vector<AlignedReadEvent> ignored;
-  const int completed = get_events(ctx, submitted, ignored);
+  std::vector<AlignedReadEvent> events;
+  const int completed = get_events(ctx, submitted, events);
   if (completed != submitted) {
     throw std::runtime_error("ThreadPoolFileReader::read: completed " + std::to_string(completed) +
                              " reads, expected " + std::to_string(submitted));
   }
+  // Ids need not be unique within a batch, so compare the number of bytes read as a whole.
+  int64_t expected_bytes = 0;
+  int64_t read_bytes = 0;
+  for (const auto &req : read_reqs) {
+    expected_bytes += static_cast<int64_t>(req.len);
+  }
+  for (const auto &event : events) {
+    if (event.result < 0) {
+      throw std::runtime_error("ThreadPoolFileReader::read: read failed; errno=" +
+                               std::to_string(-event.result));
+    }
+    read_bytes += event.result;
+  }
+  if (read_bytes != expected_bytes) {
+    throw std::runtime_error("ThreadPoolFileReader::read: read " + std::to_string(read_bytes) +
+                             " bytes, expected " + std::to_string(expected_bytes));
+  }
 }
 
 inline int ThreadPoolFileReader::submit_reqs(std::vector<AlignedRead> &read_reqs, IOContext &ctx) {
-- 
2.43.0


From d0ba8201419f3175c46a0da460fa23601a033621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:49 +0000
Subject: [PATCH 39/49] fix: refuse LASER index files that are damaged or
 belong to another index

---
 include/index/graph/laser/qg/qg.hpp | 39 ++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/include/index/graph/laser/qg/qg.hpp b/include/index/graph/laser/qg/qg.hpp
index c11d60b..ae042d2 100644
--- a/include/index/graph/laser/qg/qg.hpp
+++ b/include/index/graph/laser/qg/qg.hpp
@@ -909,23 +909,24 @@ inline void QuantizedGraph::load_disk_index(const char *filename, float search_D
                              index_file_name_);
   }
   std::ifstream input(index_file_name_, std::ios::binary);
-  assert(input.is_open());
-
   std::vector<uint64_t> metas(kSectorLen / sizeof(uint64_t), 0);
   input.read(reinterpret_cast<char *>(metas.data()), kSectorLen);
 
-  assert(metas[0] == num_points_);
-  assert(metas[1] == dimension_);
-  assert(metas[3] == node_len_);
-  assert(metas[4] == node_per_page_);
-  assert(metas[8] == std::filesystem::file_size(index_file_name_));
+  if (!input || metas[0] != num_points_ || metas[1] != dimension_ || metas[2] >= num_points_ ||
+      metas[3] != node_len_ || metas[4] != node_per_page_ ||
+      metas[8] != std::filesystem::file_size(index_file_name_)) {
+    throw std::runtime_error("QuantizedGraph::load_disk_index: " + index_file_name_ +
+                             " is damaged or belongs to another index");
+  }
 
   entry_point_ = metas[2];
 
   std::string rotator_path = std::string(index_file_name_) + "_rotator";
   std::ifstream rotator_input(rotator_path, std::ios::binary);
-  assert(rotator_input.is_open());
   rotator_.load(rotator_input);
+  if (!rotator_input) {
+    throw std::runtime_error("QuantizedGraph::load_disk_index: cannot read " + rotator_path);
+  }
 
   init_workspace();
 
@@ -970,9 +971,15 @@ inline void QuantizedGraph::load_medoids(const char *filename) {
   int tmp;
   medoid_input.read(reinterpret_cast<char *>(&medoid_num), sizeof(int));
   medoid_input.read(reinterpret_cast<char *>(&tmp), sizeof(int));
+  if (!medoid_input || medoid_num < 0 || tmp < 0) {
+    throw std::runtime_error("QuantizedGraph::load_medoids: cannot read " + medoids_indices_file);
+  }
   medoids_.resize(static_cast<uint64_t>(medoid_num) * static_cast<uint64_t>(tmp));
   medoid_input.read(reinterpret_cast<char *>(medoids_.data()),
                     static_cast<std::streamsize>(sizeof(int) * medoid_num * tmp));
+  if (!medoid_input) {
+    throw std::runtime_error("QuantizedGraph::load_medoids: cannot read " + medoids_indices_file);
+  }
   medoid_input.close();
 
   std::ifstream mediod_vector_input(medoids_file, std::ios::binary);
@@ -992,6 +999,9 @@ inline void QuantizedGraph::load_medoids(const char *filename) {
   mediod_vector_input.read(reinterpret_cast<char *>(medoids_vector_.data()),
                            static_cast<std::streamsize>(sizeof(float) * medoid_num *
                                                         (dimension_ + residual_dimension_)));
+  if (!mediod_vector_input) {
+    throw std::runtime_error("QuantizedGraph::load_medoids: cannot read " + medoids_file);
+  }
   mediod_vector_input.close();
 }
 
@@ -1000,11 +1010,9 @@ inline void QuantizedGraph::load_cache(std::string &cache_ids_file,
                                        size_t online_cache_num) {
   std::ifstream cache_ids_input(cache_ids_file, std::ios::binary);
   std::ifstream cache_vectors_input(cache_nodes_file, std::ios::binary);
-  assert(cache_ids_input.is_open());
-  assert(cache_vectors_input.is_open());
-  size_t cache_ids_num;
-  size_t cache_nodes_num;
-  size_t tmp_node_len;
+  size_t cache_ids_num = 0;
+  size_t cache_nodes_num = 0;
+  size_t tmp_node_len = 0;
   cache_ids_input.read(reinterpret_cast<char *>(&cache_ids_num), sizeof(size_t));
   cache_vectors_input.read(reinterpret_cast<char *>(&cache_nodes_num), sizeof(size_t));
   cache_vectors_input.read(reinterpret_cast<char *>(&tmp_node_len), sizeof(size_t));
@@ -1013,11 +1021,14 @@ inline void QuantizedGraph::load_cache(std::string &cache_ids_file,
   cache_ids_.resize(online_cache_num);
   cache_ids_input.read(reinterpret_cast<char *>(cache_ids_.data()),
                        static_cast<std::streamsize>(sizeof(PID) * online_cache_num));
-  assert(tmp_node_len == node_len_);
   cache_nodes_.resize(online_cache_num * node_len_);
   cache_vectors_input.read(reinterpret_cast<char *>(cache_nodes_.data()),
                            static_cast<std::streamsize>(sizeof(char) * online_cache_num *
                                                         node_len_));
+  if (!cache_ids_input || !cache_vectors_input || tmp_node_len != node_len_) {
+    throw std::runtime_error("QuantizedGraph::load_cache: " + cache_ids_file + " or " +
+                             cache_nodes_file + " is damaged or belongs to another index");
+  }
   for (unsigned i = 0; i < cache_ids_.size(); i++) {
     PID cur_id = cache_ids_[i];
     caches_[cur_id] = cache_nodes_.data() + i * node_len_;
-- 
2.43.0


From 2f67dccf681dac891a5c7159b1de86fdae2fa625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:50 +0000
Subject: [PATCH 40/49] fix: refuse vamana graphs that do not fit the LASER
 index

---
 include/index/graph/laser/qg/qg_builder.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/index/graph/laser/qg/qg_builder.hpp b/include/index/graph/laser/qg/qg_builder.hpp
index 332cd34..8d499f9 100644
--- a/include/index/graph/laser/qg/qg_builder.hpp
+++ b/include/index/graph/laser/qg/qg_builder.hpp
@@ -446,6 +446,9 @@ inline void QGBuilder::init_from_vamana(const std::string &filename) {
 
   assert(max_observed_degree == qg_.degree_bound());
 
+  if (start >= num_nodes_) {
+    throw std::runtime_error("QGBuilder: " + filename + " does not fit the index");
+  }
   qg_.set_ep(start);
 
   std::cout << "From graph header, expected_file_size: " << expected_file_size
@@ -469,12 +472,18 @@ inline void QGBuilder::init_from_vamana(const std::string &filename) {
 
     cc += k;
     ++nodes_read;
+    if (nodes_read > num_nodes_ || k > degree_bound_) {
+      throw std::runtime_error("QGBuilder: " + filename + " does not fit the index");
+    }
     std::vector<uint32_t> tmp(k);
     tmp.reserve(k);
     in.read(reinterpret_cast<char *>(tmp.data()),
             static_cast<std::streamsize>(k * sizeof(uint32_t)));
 
     for (PID cur_neigh : tmp) {
+      if (cur_neigh >= num_nodes_) {
+        throw std::runtime_error("QGBuilder: " + filename + " does not fit the index");
+      }
       in_degrees[cur_neigh]++;
       new_neighbors_[nodes_read - 1].emplace_back(cur_neigh,
                                                   0.0);  // Distance will be computed later in
@@ -489,6 +498,9 @@ inline void QGBuilder::init_from_vamana(const std::string &filename) {
       max_range_of_graph = k;
     }
   }
+  if (nodes_read != num_nodes_) {
+    throw std::runtime_error("QGBuilder: " + filename + " does not fit the index");
+  }
 
   qg_.cache_ids_.resize(num_nodes_);
   std::iota(qg_.cache_ids_.begin(), qg_.cache_ids_.end(), 0);
@@ -500,7 +512,6 @@ inline void QGBuilder::init_from_vamana(const std::string &filename) {
 
   std::cout << "done. Index has " << nodes_read << " nodes and " << cc
             << " out-edges, _start is set to " << start << std::endl;
-  assert(nodes_read == num_nodes_);
 }
 
 }  // namespace alaya::laser
-- 
2.43.0


From 55e5dd3473356d1ef8e8f155692069fc304a7031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:12 +0000
Subject: [PATCH 41/49] fix: report LASER index builds that could not read or
 write their files

---
 include/index/graph/laser/qg/qg_builder.hpp | 33 +++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/include/index/graph/laser/qg/qg_builder.hpp b/include/index/graph/laser/qg/qg_builder.hpp
index 8d499f9..b666128 100644
--- a/include/index/graph/laser/qg/qg_builder.hpp
+++ b/include/index/graph/laser/qg/qg_builder.hpp
@@ -10,12 +10,16 @@
 #include <cstdint>
 #include <cstdlib>
 #include <cstring>
+#include <exception>
+#include <fstream>
 #include <functional>
 #include <iomanip>
 #include <iostream>
 #include <mutex>
 #include <numeric>
 #include <random>
+#include <stdexcept>
+#include <string>
 #include <unordered_set>
 #include <utility>
 #include <vector>
@@ -89,6 +93,11 @@ class QGBuilder {
   std::vector<HashBasedBooleanSet> visited_list_;
   std::vector<uint32_t> degrees_;
   std::function<void(PID, const char *, size_t)> node_payload_observer_;
+  static void check_written(const std::ofstream &output, const std::string &path) {
+    if (!output) {
+      throw std::runtime_error("QGBuilder: cannot write " + path);
+    }
+  }
   void random_init();
   void init_from_vamana(const std::string &filename);
   void search_new_neighbors(bool refine);
@@ -201,7 +210,10 @@ class QGBuilder {
     int n, d;
     vector_input.read(reinterpret_cast<char *>(&n), sizeof(int));
     vector_input.read(reinterpret_cast<char *>(&d), sizeof(int));
-    assert(d == (qg_.dimension_ + qg_.residual_dimension_));
+    if (!vector_input || n < 0 || static_cast<size_t>(n) < qg_.num_points_ || d <= 0 ||
+        static_cast<size_t>(d) != qg_.dimension_ + qg_.residual_dimension_) {
+      throw std::runtime_error("QGBuilder: " + data_path + " does not fit the index");
+    }
 
     // Round up vector size to sector boundary for O_DIRECT compatibility
     size_t vector_tmp_page_size = (d * sizeof(float) + kSectorLen - 1) / kSectorLen * kSectorLen;
@@ -233,8 +245,12 @@ class QGBuilder {
       tmp_output.write(buffer.data(), static_cast<std::streamsize>(vector_tmp_page_size));
     }
 
+    if (!vector_input) {
+      throw std::runtime_error("QGBuilder: cannot read " + data_path);
+    }
     vector_input.close();
     tmp_output.close();
+    check_written(tmp_output, tmp_path);
 
     // ==================== PHASE 2: Parallel Out-of-Core Index Construction ====================
     // Open the aligned vector file for direct I/O (bypasses page cache)
@@ -263,6 +279,7 @@ class QGBuilder {
 
     std::cout << "\nupdate qg..." << std::endl;
     std::unordered_map<size_t, PageAssembler> page_assemblers;
+    std::exception_ptr error;  // must not leave the parallel region
 
     // Process all nodes in parallel with dynamic scheduling.
     // Each iteration processes ONE node: reads its neighbors, computes quantization, writes to
@@ -299,7 +316,12 @@ class QGBuilder {
       // Core processing: read vectors from disk, compute RaBitQ codes, prepare node data
       // This function reads the node's vector and all neighbor vectors via async I/O,
       // then computes quantization codes without holding vectors in memory permanently
-      qg_.update_qg_out_of_memory(i, new_neighbors_[i], *vector_reader, data);
+      try {
+        qg_.update_qg_out_of_memory(i, new_neighbors_[i], *vector_reader, data);
+      } catch (...) {
+#pragma omp critical
+        error = std::current_exception();
+      }
 
       // Pack completed node bytes into the read-path page layout.
 #pragma omp critical
@@ -342,7 +364,11 @@ class QGBuilder {
     }
     vector_reader->deregister_all_threads();
     vector_reader->close();
+    if (error) {
+      std::rethrow_exception(error);
+    }
     output.close();
+    check_written(output, index_path);
 
     // ==================== Save Rotation Matrix ====================
     // The Fast Hadamard Transform rotation matrix is small and saved separately
@@ -351,6 +377,7 @@ class QGBuilder {
     assert(rotator_output.is_open());
     qg_.rotator_.save(rotator_output);
     rotator_output.close();
+    check_written(rotator_output, rotator_path);
 
     // ==================== Cleanup Temporary File ====================
     // The sector-aligned temporary file is no longer needed
@@ -378,6 +405,7 @@ class QGBuilder {
     cache_ids_output.write(reinterpret_cast<const char *>(qg_.cache_ids_.data()),
                            static_cast<std::streamsize>(sizeof(PID) * cache_num));
     cache_ids_output.close();
+    check_written(cache_ids_output, cache_ids_file);
 
     // Write cache node data (extracted from the completed index)
     std::ofstream cache_vectors_output(cache_nodes_file, std::ios::binary);
@@ -418,6 +446,7 @@ class QGBuilder {
       }
     }
     cache_vectors_output.close();
+    check_written(cache_vectors_output, cache_nodes_file);
     cache_reader->deregister_all_threads();
     cache_reader->close();
     memory::align_free(cache_buffer);
-- 
2.43.0


From 4a0d16c1fe8200012735b2c63f564f303aec6aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:38 +0000
Subject: [PATCH 42/49] fix: do not treat empty LASER neighbor places as links
 to vertex 0

---
 include/index/graph/laser/qg/qg.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/index/graph/laser/qg/qg.hpp b/include/index/graph/laser/qg/qg.hpp
index ae042d2..bd0a5fd 100644
--- a/include/index/graph/laser/qg/qg.hpp
+++ b/include/index/graph/laser/qg/qg.hpp
@@ -849,9 +849,6 @@ inline void QuantizedGraph::update_qg_out_of_memory(
 
   // Execute batch read operation to fetch all neighbor vectors and centroid in one I/O call
   vector_reader.read(frontier_read_reqs, thread_data.ctx_);
-  if (cur_degree == 0) {
-    return;  // only the vector itself is stored
-  }
 
   // Write neighbor IDs into the node payload AFTER the read, since the read
   // request above lands `full_page_size` bytes at `page_buf[0..full_page_size]`
@@ -861,6 +858,12 @@ inline void QuantizedGraph::update_qg_out_of_memory(
   for (size_t i = 0; i < cur_degree; ++i) {
     neighbor_ptr[i] = new_neighbors[i].id;
   }
+  // Places that are left over lead back to the vertex, which a search has visited by then; a zero
+  // would be a link to vertex 0.
+  std::fill(neighbor_ptr + cur_degree, neighbor_ptr + degree_bound_, cur_id);
+  if (cur_degree == 0) {
+    return;  // there is nothing to encode
+  }
 
   /* Copy data */
   for (size_t i = 0; i < cur_degree; ++i) {
-- 
2.43.0


From 211d066cfc34b9026602b84ccd7952cf8808226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:08 +0000
Subject: [PATCH 43/49] fix: follow the candidates found by the last reads of a
 LASER search

The loop ended as soon as no candidate was left, though half of the last
reads was still in the pipeline; what their nodes brought in was dropped.
---
 include/index/graph/laser/qg/qg.hpp | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/include/index/graph/laser/qg/qg.hpp b/include/index/graph/laser/qg/qg.hpp
index bd0a5fd..2863e4b 100644
--- a/include/index/graph/laser/qg/qg.hpp
+++ b/include/index/graph/laser/qg/qg.hpp
@@ -615,7 +615,8 @@ inline void QuantizedGraph::disk_search_qg(ThreadData &data,
   // ==================== Main Search Loop ====================
   // Iteratively expand search frontier until no more candidates remain.
   // Uses beam search with adaptive width and pipelined I/O processing.
-  while (data.search_pool_.has_next()) {
+  // Nodes still in the pipeline may bring in further candidates, so they keep the search going.
+  while (data.search_pool_.has_next() || previous_remain_num > 0) {
     frontier_read_reqs.clear();
     cache_nhoods.clear();
     size_t n_ops = 0;
@@ -710,22 +711,6 @@ inline void QuantizedGraph::disk_search_qg(ThreadData &data,
     }
   }
 
-  // ==================== Process Remaining Nodes ====================
-  // After the main loop exits, there may still be nodes in the pipeline
-  // that haven't been processed yet. Drain the remaining nodes.
-  while (previous_remain_num > 0) {
-    if (!prepared_nodes.empty()) {
-      auto node = prepared_nodes.front();
-      prepared_nodes.pop_front();
-      process_node(node.first, reinterpret_cast<float *>(node.second + offset_to_node(node.first)));
-      previous_remain_num--;
-      free_slots.push_back(node.second);
-    } else {
-      // Wait for any remaining in-flight I/O operations to complete
-      wait_for_nodes();
-    }
-  }
-
   // Record query end time for latency measurement
   auto query_end = std::chrono::high_resolution_clock::now();
 
-- 
2.43.0


From 5e97247702664203ba1cd99ee02f86449681233d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:21 +0000
Subject: [PATCH 44/49] fix: refuse LASER PCA files that are damaged or belong
 to another index

---
 include/index/graph/laser/qg/qg.hpp               |  6 +++++-
 include/index/graph/laser/utils/pca_transform.hpp | 15 +++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/index/graph/laser/qg/qg.hpp b/include/index/graph/laser/qg/qg.hpp
index 2863e4b..391cf94 100644
--- a/include/index/graph/laser/qg/qg.hpp
+++ b/include/index/graph/laser/qg/qg.hpp
@@ -923,7 +923,11 @@ inline void QuantizedGraph::load_disk_index(const char *filename, float search_D
   // Load PCA parameters for online query transformation
   std::string pca_path = std::string(filename) + "_pca.bin";
   if (std::filesystem::exists(pca_path)) {
-    pca_transform_.load(pca_path);
+    if (!pca_transform_.load(pca_path) ||
+        pca_transform_.dimension() != dimension_ + residual_dimension_) {
+      throw std::runtime_error("QuantizedGraph::load_disk_index: " + pca_path +
+                               " is damaged or belongs to another index");
+    }
   } else {
     std::cerr << "Warning: PCA file not found: " << pca_path << std::endl;
   }
diff --git a/include/index/graph/laser/utils/pca_transform.hpp b/include/index/graph/laser/utils/pca_transform.hpp
index 389a2c5..23388b8 100644
--- a/include/index/graph/laser/utils/pca_transform.hpp
+++ b/include/index/graph/laser/utils/pca_transform.hpp
@@ -101,8 +101,15 @@ class PCATransform {
     }
 
     // Read dimension
-    uint64_t dim;
+    uint64_t dim = 0;
     input.read(reinterpret_cast<char *>(&dim), sizeof(uint64_t));
+    input.seekg(0, std::ios::end);
+    const auto floats = (static_cast<uint64_t>(input.tellg()) - sizeof(uint64_t)) / sizeof(float);
+    input.seekg(sizeof(uint64_t), std::ios::beg);
+    if (!input || dim == 0 || dim > floats || dim + 1 > floats / dim) {
+      std::cerr << "PCATransform: " << filename << " is cut short" << std::endl;
+      return false;
+    }
     input_dim_ = static_cast<size_t>(dim);
     output_dim_ = input_dim_;  // Orthogonal transformation
 
@@ -118,6 +125,10 @@ class PCATransform {
     input.read(reinterpret_cast<char *>(pca_matrix_.data()),
                static_cast<std::streamsize>(sizeof(float) * output_dim_ * input_dim_));
 
+    if (!input) {
+      std::cerr << "PCATransform: Cannot read file " << filename << std::endl;
+      return false;
+    }
     input.close();
     loaded_ = true;
 
@@ -150,7 +161,7 @@ class PCATransform {
                  static_cast<std::streamsize>(sizeof(float) * output_dim_ * input_dim_));
 
     output.close();
-    return true;
+    return output.good();
   }
 
   /**
-- 
2.43.0


From e6ab9a8027762f92629a2d574e9cc733e0c80eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:00 +0000
Subject: [PATCH 45/49] fix: refuse a saved space that was cut short inside its
 scalar configuration

---
 include/space/rabitq_space.hpp | 5 ++++-
 include/space/raw_space.hpp    | 3 +++
 include/space/sq4_space.hpp    | 5 ++++-
 include/space/sq8_space.hpp    | 5 ++++-
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/space/rabitq_space.hpp b/include/space/rabitq_space.hpp
index 49ec511..1fa3f01 100644
--- a/include/space/rabitq_space.hpp
+++ b/include/space/rabitq_space.hpp
@@ -131,7 +131,7 @@ class RaBitQSpace {
     config_.create_if_missing_ = false;  // db is missing means something's wrong
     config_.error_if_exists_ = false;    // Of course db exists
     // Load db_path_ string
-    size_t db_path_size;
+    size_t db_path_size = 0;
     reader.read(reinterpret_cast<char *>(&db_path_size), sizeof(db_path_size));
     config_.db_path_.resize(db_path_size);
     reader.read(config_.db_path_.data(), db_path_size);
@@ -628,6 +628,9 @@ class RaBitQSpace {
 
     if constexpr (has_scalar_data) {
       load_scalar_config(reader);
+      if (!reader) {
+        throw std::runtime_error("Failed to read file " + std::string(filename));
+      }
       scalar_storage_ = std::make_unique<RocksDBStorage<IDType>>(config_);
     }
 
diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index 800dc3d..78180d3 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -388,6 +388,9 @@ class RawSpace {
     reader.read(reinterpret_cast<char *>(&capacity_), sizeof(capacity_));
     if constexpr (has_scalar_data) {
       load_scalar_config(reader);
+      if (!reader) {
+        throw std::runtime_error("Failed to read file " + std::string(filename));
+      }
       scalar_storage_ = std::make_unique<RocksDBStorage<IDType>>(config_);
     }
     data_storage_.load(reader);
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index 4e94a9c..22c820f 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -359,6 +359,9 @@ class SQ4Space {
 
     if constexpr (has_scalar_data) {  // NOLINT
       load_scalar_config(reader);
+      if (!reader) {
+        throw std::runtime_error("Failed to read file " + std::string(filename));
+      }
       scalar_storage_ = std::make_unique<RocksDBStorage<IDType>>(config_);
     }
 
@@ -532,7 +535,7 @@ class SQ4Space {
     config_.create_if_missing_ = false;  // db is missing means something went wrong
     config_.error_if_exists_ = false;    // Of course db exists
     // Load db_path_ string
-    size_t db_path_size;
+    size_t db_path_size = 0;
     reader.read(reinterpret_cast<char *>(&db_path_size), sizeof(db_path_size));
     config_.db_path_.resize(db_path_size);
     reader.read(config_.db_path_.data(), db_path_size);
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index 9ba025e..95738db 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -358,6 +358,9 @@ class SQ8Space {
 
     if constexpr (has_scalar_data) {  // NOLINT
       load_scalar_config(reader);
+      if (!reader) {
+        throw std::runtime_error("Failed to read file " + std::string(filename));
+      }
       scalar_storage_ = std::make_unique<RocksDBStorage<IDType>>(config_);
     }
 
@@ -532,7 +535,7 @@ class SQ8Space {
     config_.create_if_missing_ = false;  // db is missing means something went wrong
     config_.error_if_exists_ = false;    // Of course db exists
     // Load db_path_ string
-    size_t db_path_size;
+    size_t db_path_size = 0;
     reader.read(reinterpret_cast<char *>(&db_path_size), sizeof(db_path_size));
     config_.db_path_.resize(db_path_size);
     reader.read(config_.db_path_.data(), db_path_size);
-- 
2.43.0


From dd26255e8a40dc132576d08d99180ad103024009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:00 +0000
Subject: [PATCH 46/49] fix: keep the vector of a row whose scalar data could
 not be removed

---
 include/space/raw_space.hpp | 4 +++-
 include/space/sq4_space.hpp | 4 +++-
 include/space/sq8_space.hpp | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index 78180d3..8db2065 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -187,7 +187,9 @@ class RawSpace {
   auto remove(IDType id) -> IDType {
     if constexpr (has_scalar_data) {
       if (scalar_storage_ != nullptr) {
-        scalar_storage_->remove(id);
+        if (!scalar_storage_->remove(id) && scalar_storage_->is_valid(id)) {
+          throw std::runtime_error("Failed to remove ScalarData");
+        }
       }
     }
     auto removed = data_storage_.remove(id);
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index 22c820f..adc557f 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -311,7 +311,9 @@ class SQ4Space {
     // Remove ScalarData if present
     if constexpr (has_scalar_data) {  // NOLINT
       if (scalar_storage_ != nullptr) {
-        scalar_storage_->remove(id);
+        if (!scalar_storage_->remove(id) && scalar_storage_->is_valid(id)) {
+          throw std::runtime_error("Failed to remove ScalarData");
+        }
       }
     }
 
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index 95738db..3752b7c 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -310,7 +310,9 @@ class SQ8Space {
     // Remove ScalarData if present
     if constexpr (has_scalar_data) {  // NOLINT
       if (scalar_storage_ != nullptr) {
-        scalar_storage_->remove(id);
+        if (!scalar_storage_->remove(id) && scalar_storage_->is_valid(id)) {
+          throw std::runtime_error("Failed to remove ScalarData");
+        }
       }
     }
 
-- 
2.43.0


From cd889e89c4ac19da0916bb1ad9aee0d246b886c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:14 +0000
Subject: [PATCH 47/49] fix: a fit whose scalar data is refused stores no rows

---
 include/space/rabitq_space.hpp | 25 +++++++++++++------------
 include/space/raw_space.hpp    | 10 ++++++----
 include/space/sq4_space.hpp    | 17 +++++++++--------
 include/space/sq8_space.hpp    | 17 +++++++++--------
 4 files changed, 37 insertions(+), 32 deletions(-)

diff --git a/include/space/rabitq_space.hpp b/include/space/rabitq_space.hpp
index 1fa3f01..d454c7e 100644
--- a/include/space/rabitq_space.hpp
+++ b/include/space/rabitq_space.hpp
@@ -290,19 +290,8 @@ class RaBitQSpace {
     if (item_cnt > capacity_) {
       throw std::length_error("The number of data points exceeds the capacity of the space");
     }
-    item_cnt_ = item_cnt;
-
-    // We don't fit after loading , so loaded storage_ would not be overwritten.
-    storage_ = StaticStorage<>(std::vector<size_t>{item_cnt_, data_chunk_size_});
-    platform::log_openmp_fallback_once();
-    ALAYA_OMP_PARALLEL_FOR_DYNAMIC
-    for (int64_t i = 0; i < static_cast<int64_t>(item_cnt); i++) {
-      const auto *src = data + (dim_ * i);
-      auto *dst = get_data_by_id(i);
-      std::copy(src, src + dim_, dst);
-    }
-
     // Store ScalarData with synchronized IDs (0, 1, 2, ...)
+    // Rows the scalar storage refuses must not leave their vectors behind, so it comes first
     if constexpr (has_scalar_data) {
       if (scalar_data == nullptr) {
         throw std::invalid_argument("Invalid or null ScalarData pointer.");
@@ -318,6 +307,18 @@ class RaBitQSpace {
         throw std::runtime_error("Failed to batch insert ScalarData");
       }
     }
+
+    item_cnt_ = item_cnt;
+
+    // We don't fit after loading , so loaded storage_ would not be overwritten.
+    storage_ = StaticStorage<>(std::vector<size_t>{item_cnt_, data_chunk_size_});
+    platform::log_openmp_fallback_once();
+    ALAYA_OMP_PARALLEL_FOR_DYNAMIC
+    for (int64_t i = 0; i < static_cast<int64_t>(item_cnt); i++) {
+      const auto *src = data + (dim_ * i);
+      auto *dst = get_data_by_id(i);
+      std::copy(src, src + dim_, dst);
+    }
   }
 
   auto get_distance(IDType i, IDType j) -> DistanceType {
diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index 8db2065..94e0cb6 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -136,10 +136,7 @@ class RawSpace {
     if (item_cnt > capacity_) {
       throw std::length_error("The number of data points exceeds the capacity of the space");
     }
-    item_cnt_ = item_cnt;
-    for (IDType i = 0; i < item_cnt_; ++i) {
-      data_storage_.insert(data + (i * dim_));
-    }
+    // Rows the scalar storage refuses must not leave their vectors behind, so it comes first
     if constexpr (has_scalar_data) {
       if (scalar_data == nullptr) {
         throw std::invalid_argument("Invalid or null ScalarData pointer.");
@@ -154,6 +151,11 @@ class RawSpace {
         throw std::runtime_error("Failed to batch insert ScalarData");
       }
     }
+
+    item_cnt_ = item_cnt;
+    for (IDType i = 0; i < item_cnt_; ++i) {
+      data_storage_.insert(data + (i * dim_));
+    }
   }
 
   /**
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index adc557f..804a5bb 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -131,15 +131,8 @@ class SQ4Space {
     if (item_cnt > capacity_) {
       throw std::length_error("The number of data points exceeds the capacity of the space");
     }
-    item_cnt_ = item_cnt;
-
-    quantizer_.fit(data, item_cnt);
-    for (IDType i = 0; i < item_cnt; i++) {
-      auto id = data_storage_.reserve();
-      quantizer_.encode(data + (i * dim_), data_storage_[id]);
-    }
-
     // Store ScalarData with synchronized IDs (0, 1, 2, ...)
+    // Rows the scalar storage refuses must not leave their vectors behind, so it comes first
     if constexpr (has_scalar_data) {  // NOLINT
       if (scalar_data == nullptr) {
         throw std::invalid_argument("Invalid or null ScalarData pointer.");
@@ -157,6 +150,14 @@ class SQ4Space {
         throw std::runtime_error("Failed to batch insert ScalarData");
       }
     }
+
+    item_cnt_ = item_cnt;
+
+    quantizer_.fit(data, item_cnt);
+    for (IDType i = 0; i < item_cnt; i++) {
+      auto id = data_storage_.reserve();
+      quantizer_.encode(data + (i * dim_), data_storage_[id]);
+    }
   }
 
   /**
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index 3752b7c..8a47496 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -130,15 +130,8 @@ class SQ8Space {
     if (item_cnt > capacity_) {
       throw std::length_error("The number of data points exceeds the capacity of the space");
     }
-    item_cnt_ = item_cnt;
-
-    quantizer_.fit(data, item_cnt);
-    for (IDType i = 0; i < item_cnt; i++) {
-      auto id = data_storage_.reserve();
-      quantizer_.encode(data + (i * dim_), data_storage_[id]);
-    }
-
     // Store ScalarData with synchronized IDs (0, 1, 2, ...)
+    // Rows the scalar storage refuses must not leave their vectors behind, so it comes first
     if constexpr (has_scalar_data) {  // NOLINT
       if (scalar_data == nullptr) {
         throw std::invalid_argument("Invalid or null ScalarData pointer.");
@@ -156,6 +149,14 @@ class SQ8Space {
         throw std::runtime_error("Failed to batch insert ScalarData");
       }
     }
+
+    item_cnt_ = item_cnt;
+
+    quantizer_.fit(data, item_cnt);
+    for (IDType i = 0; i < item_cnt; i++) {
+      auto id = data_storage_.reserve();
+      quantizer_.encode(data + (i * dim_), data_storage_[id]);
+    }
   }
 
   /**
-- 
2.43.0


From fea3d2d968c1a8be562bdf014d8d1189bc83b18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:50 +0000
Subject: [PATCH 48/49] fix: keep the entry point of a Vamana graph linked when
 the build beam is one

---
 include/index/graph/vamana/vamana_builder.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/index/graph/vamana/vamana_builder.hpp b/include/index/graph/vamana/vamana_builder.hpp
index 3490a50..e88f0d1 100644
--- a/include/index/graph/vamana/vamana_builder.hpp
+++ b/include/index/graph/vamana/vamana_builder.hpp
@@ -459,7 +459,11 @@ class VamanaBuilder {
 
       {
         std::lock_guard<std::mutex> guard(locks_[node]);
-        graph_[node] = pruned_list;
+        // A beam of one finds only the medoid itself when the medoid is linked:
+        // it then keeps the neighbors it already has.
+        if (!pruned_list.empty()) {
+          graph_[node] = pruned_list;
+        }
       }
 
       inter_insert(node, pruned_list, s, alpha);
-- 
2.43.0


From 90b11af33874e68058a783be0e71ba45f93e191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:50 +0000
Subject: [PATCH 49/49] fix: report a Vamana graph file whose last bytes could
 not be written

---
 include/index/graph/vamana/vamana_writer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/index/graph/vamana/vamana_writer.hpp b/include/index/graph/vamana/vamana_writer.hpp
index 565f1a9..a493bd9 100644
--- a/include/index/graph/vamana/vamana_writer.hpp
+++ b/include/index/graph/vamana/vamana_writer.hpp
@@ -69,6 +69,9 @@ inline void save_graph(const std::vector<std::vector<uint32_t>> &graph,
     throw std::runtime_error("save_graph: write error on " + path.string());
   }
   out.close();
+  if (!out) {
+    throw std::runtime_error("save_graph: write error on " + path.string());
+  }
 }
 
 }  // namespace alaya::vamana
-- 
2.43.0

