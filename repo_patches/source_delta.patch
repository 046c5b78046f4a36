From 32c7eb1bd0dc3aecfeeb6f054c456063876cdf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:53 +0000
Subject: [PATCH 01/37] fix: merge and exclude row ranges that end at the
 largest row id correctly

Range::SortAndMergeOverlap and Range::Exclude added one to a range end before
comparing it. For a range that ends at INT64_MAX the sum overflowed: overlapping
ranges stayed unmerged, and excluding the tail returned rows that were excluded.
---
 src/paimon/common/utils/range.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/paimon/common/utils/range.cpp b/src/paimon/common/utils/range.cpp
index 42d360a..c8fdbf3 100644
--- a/src/paimon/common/utils/range.cpp
+++ b/src/paimon/common/utils/range.cpp
@@ -43,7 +43,7 @@ std::vector<Range> Range::SortAndMergeOverlap(const std::vector<Range>& ranges,
     for (size_t i = 1; i < sorted_ranges.size(); ++i) {
         Range next = sorted_ranges[i];
         // Check if current and next overlap (not just adjacent)
-        if (current.to + (adjacent ? 1 : 0) >= next.from) {
+        if (next.from <= current.to || (adjacent && next.from - 1 == current.to)) {
             // Merge: extend current range
             current = Range(current.from, std::max(current.to, next.to));
         } else {
@@ -124,16 +124,15 @@ std::vector<Range> Range::Exclude(const std::vector<Range>& ranges) const {
         if (current < intersect.value().from) {
             result.emplace_back(current, intersect.value().from - 1);
         }
+        if (intersect.value().to == to) {
+            // Nothing remains after the intersection
+            return result;
+        }
         // Move current position past the intersection
         current = intersect.value().to + 1;
-        if (current > to) {
-            break;
-        }
-    }
-    // Add the remaining part after all exclusions (if any)
-    if (current <= to) {
-        result.emplace_back(current, to);
     }
+    // Add the remaining part after all exclusions
+    result.emplace_back(current, to);
 
     return result;
 }
-- 
2.43.0


From c7f3b78b71e4972a7ec562a8a824e437e39419c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:24 +0000
Subject: [PATCH 02/37] fix: keep the position of a byte array stream when a
 seek fails

A seek outside the array reported an error but still moved the position, so
the next read copied memory outside the array. A positioned read whose offset
plus size wraps around was accepted as well.
---
 src/paimon/common/io/byte_array_input_stream.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/paimon/common/io/byte_array_input_stream.cpp b/src/paimon/common/io/byte_array_input_stream.cpp
index b98ab24..c5658fd 100644
--- a/src/paimon/common/io/byte_array_input_stream.cpp
+++ b/src/paimon/common/io/byte_array_input_stream.cpp
@@ -33,28 +33,30 @@ const char* ByteArrayInputStream::GetRawData() const {
 }
 
 Status ByteArrayInputStream::Seek(int64_t offset, SeekOrigin origin) {
+    int64_t position = position_;
     switch (origin) {
         case SeekOrigin::FS_SEEK_SET: {
-            position_ = offset;
+            position = offset;
             break;
         }
         case SeekOrigin::FS_SEEK_CUR: {
-            position_ += offset;
+            position += offset;
             break;
         }
         case SeekOrigin::FS_SEEK_END: {
             PAIMON_ASSIGN_OR_RAISE(uint64_t length, Length());
-            position_ = static_cast<int64_t>(length) + offset;
+            position = static_cast<int64_t>(length) + offset;
             break;
         }
         default:
             return Status::Invalid(
                 "invalid SeekOrigin, only support FS_SEEK_SET, FS_SEEK_CUR, and FS_SEEK_END");
     }
-    if (position_ < 0 || position_ > static_cast<int64_t>(length_)) {
+    if (position < 0 || position > static_cast<int64_t>(length_)) {
         return Status::Invalid(
-            fmt::format("invalid seek, after seek, current pos {}, length {}", position_, length_));
+            fmt::format("invalid seek, after seek, current pos {}, length {}", position, length_));
     }
+    position_ = position;
     return Status::OK();
 }
 
@@ -71,7 +73,7 @@ Result<int32_t> ByteArrayInputStream::Read(char* buffer, uint32_t size) {
 }
 
 Result<int32_t> ByteArrayInputStream::Read(char* buffer, uint32_t size, uint64_t offset) {
-    if (offset + static_cast<uint64_t>(size) > length_) {
+    if (offset > length_ || static_cast<uint64_t>(size) > length_ - offset) {
         return Status::Invalid(
             fmt::format("ByteArrayInputStream assert boundary failed: need length {}, read offset "
                         "{}, exceed length {}",
-- 
2.43.0


From 6163526b78bbcff9a73483395027f140ff5a13e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:24 +0000
Subject: [PATCH 03/37] fix: bounds and position of an offset stream

Positions were checked as 32-bit values, so reads and seeks beyond 2 GiB were
refused or let through at random. A failed seek or read moved the reported
position away from the position of the wrapped stream.
---
 src/paimon/common/io/offset_input_stream.cpp | 26 +++++++++++---------
 src/paimon/common/io/offset_input_stream.h   |  2 +-
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/paimon/common/io/offset_input_stream.cpp b/src/paimon/common/io/offset_input_stream.cpp
index 1382e6a..22349f3 100644
--- a/src/paimon/common/io/offset_input_stream.cpp
+++ b/src/paimon/common/io/offset_input_stream.cpp
@@ -56,33 +56,35 @@ OffsetInputStream::OffsetInputStream(const std::shared_ptr<InputStream>& wrapped
     : wrapped_(wrapped), length_(length), offset_(offset) {}
 
 Status OffsetInputStream::Seek(int64_t offset, SeekOrigin origin) {
+    int64_t inner_position = inner_position_;
     switch (origin) {
         case SeekOrigin::FS_SEEK_SET: {
-            inner_position_ = offset;
-            PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_));
-            return wrapped_->Seek(offset_ + inner_position_, SeekOrigin::FS_SEEK_SET);
+            inner_position = offset;
+            break;
         }
         case SeekOrigin::FS_SEEK_CUR: {
-            inner_position_ += offset;
-            PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_));
-            return wrapped_->Seek(offset, SeekOrigin::FS_SEEK_CUR);
+            inner_position += offset;
+            break;
         }
         case SeekOrigin::FS_SEEK_END: {
-            inner_position_ = length_ + offset;
-            PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_));
-            return wrapped_->Seek(offset_ + inner_position_, SeekOrigin::FS_SEEK_SET);
+            inner_position = length_ + offset;
+            break;
         }
         default:
             return Status::Invalid(
                 "invalid SeekOrigin, only support FS_SEEK_SET, FS_SEEK_CUR, and FS_SEEK_END");
     }
+    PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position));
+    PAIMON_RETURN_NOT_OK(wrapped_->Seek(offset_ + inner_position, SeekOrigin::FS_SEEK_SET));
+    inner_position_ = inner_position;
     return Status::OK();
 }
 
 Result<int32_t> OffsetInputStream::Read(char* buffer, uint32_t size) {
     PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_ + size));
-    inner_position_ += size;
-    return wrapped_->Read(buffer, size);
+    PAIMON_ASSIGN_OR_RAISE(int32_t actual_read_len, wrapped_->Read(buffer, size));
+    inner_position_ += actual_read_len;
+    return actual_read_len;
 }
 
 Result<int32_t> OffsetInputStream::Read(char* buffer, uint32_t size, uint64_t offset) {
@@ -122,7 +124,7 @@ Result<uint64_t> OffsetInputStream::Length() const {
     return length_;
 }
 
-Status OffsetInputStream::AssertBoundary(int32_t inner_pos) const {
+Status OffsetInputStream::AssertBoundary(int64_t inner_pos) const {
     if (inner_pos < 0 || inner_pos > length_) {
         return Status::Invalid(
             fmt::format("OffsetInputStream assert boundary failed: inner pos {} exceed length {}",
diff --git a/src/paimon/common/io/offset_input_stream.h b/src/paimon/common/io/offset_input_stream.h
index 6316eec..fa42899 100644
--- a/src/paimon/common/io/offset_input_stream.h
+++ b/src/paimon/common/io/offset_input_stream.h
@@ -53,7 +53,7 @@ class PAIMON_EXPORT OffsetInputStream : public InputStream {
 
  private:
     OffsetInputStream(const std::shared_ptr<InputStream>& wrapped, int64_t length, int64_t offset);
-    Status AssertBoundary(int32_t inner_pos) const;
+    Status AssertBoundary(int64_t inner_pos) const;
 
  private:
     std::shared_ptr<InputStream> wrapped_;
-- 
2.43.0


From 6007a3e440675d7c7b014891b07f5e210aed496a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:24 +0000
Subject: [PATCH 04/37] fix: report the end of the source from a buffered
 stream

A read of at least the buffer size goes straight to the source. When the source
ended early the read aborted on an assertion, or looped forever without one.
---
 src/paimon/common/io/buffered_input_stream.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/paimon/common/io/buffered_input_stream.cpp b/src/paimon/common/io/buffered_input_stream.cpp
index 7739b1d..190d1b5 100644
--- a/src/paimon/common/io/buffered_input_stream.cpp
+++ b/src/paimon/common/io/buffered_input_stream.cpp
@@ -61,7 +61,11 @@ Result<int32_t> BufferedInputStream::Read(char* buffer, uint32_t size) {
     while (actual_read_len < size) {
         PAIMON_ASSIGN_OR_RAISE(int32_t nread,
                                InnerRead(buffer + actual_read_len, size - actual_read_len));
-        assert(nread > 0);
+        if (nread <= 0) {
+            return Status::Invalid(fmt::format(
+                "read failed, only {} of {} bytes available (may read eof)", actual_read_len,
+                size));
+        }
         actual_read_len += nread;
     }
     PAIMON_RETURN_NOT_OK(AssertReadLength(size, actual_read_len));
-- 
2.43.0


From 2a7d028226cd0376c263dd805220f7bffc472aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:32 +0000
Subject: [PATCH 05/37] fix: refuse strings that do not fit the length prefix

A string of 64 KiB or more was written with a truncated length and lost its
tail without an error.
---
 src/paimon/common/io/data_output_stream.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/paimon/common/io/data_output_stream.cpp b/src/paimon/common/io/data_output_stream.cpp
index 5252ece..65833f5 100644
--- a/src/paimon/common/io/data_output_stream.cpp
+++ b/src/paimon/common/io/data_output_stream.cpp
@@ -17,6 +17,7 @@
 #include "paimon/common/io/data_output_stream.h"
 
 #include <cassert>
+#include <limits>
 #include <type_traits>
 
 #include "fmt/format.h"
@@ -54,6 +55,11 @@ Status DataOutputStream::WriteBytes(const std::shared_ptr<Bytes>& bytes) {
 }
 
 Status DataOutputStream::WriteString(const std::string& value) {
+    if (value.size() > std::numeric_limits<uint16_t>::max()) {
+        return Status::Invalid(
+            fmt::format("string of {} bytes exceeds the length limit {}", value.size(),
+                        std::numeric_limits<uint16_t>::max()));
+    }
     uint16_t write_length = value.size();
     PAIMON_RETURN_NOT_OK(WriteValue<uint16_t>(write_length));
     PAIMON_ASSIGN_OR_RAISE(int32_t actual_write_length,
-- 
2.43.0


From ae5afffa33dea26b441792288bfb671591db5793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:44 +0000
Subject: [PATCH 06/37] fix: do not read past the end of a string that ends
 inside a character

The substring of such a string copied bytes that lie behind the string.
---
 src/paimon/common/data/binary_string.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/common/data/binary_string.cpp b/src/paimon/common/data/binary_string.cpp
index aed44e4..30cbe0a 100644
--- a/src/paimon/common/data/binary_string.cpp
+++ b/src/paimon/common/data/binary_string.cpp
@@ -245,6 +245,8 @@ BinaryString BinaryString::SubStringMultiSegs(const int32_t start, const int32_t
         index.SkipBytes(char_size, seg_size);
         c += 1;
     }
+    // the last character may be cut off
+    i = std::min(i, size_in_bytes_);
 
     if (i > j) {
         std::shared_ptr<Bytes> bytes =
@@ -274,6 +276,8 @@ BinaryString BinaryString::Substring(int32_t begin_index, int32_t end_index,
             i += NumBytesForFirstByte(segment.Get(i + offset_));
             c += 1;
         }
+        // the last character may be cut off
+        i = std::min(i, size_in_bytes_);
 
         if (i > j) {
             std::shared_ptr<Bytes> bytes = Bytes::AllocateBytes(i - j, pool);
-- 
2.43.0


From 241a45eec14ef47167a95114323c7b22b1494ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:27 +0000
Subject: [PATCH 07/37] fix: order memory segments by bytes

Words of eight bytes were compared as native little endian integers, so the
order of two regions depended on where in a word they differ.
---
 src/paimon/common/memory/memory_segment.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/paimon/common/memory/memory_segment.cpp b/src/paimon/common/memory/memory_segment.cpp
index 836010e..5705f3d 100644
--- a/src/paimon/common/memory/memory_segment.cpp
+++ b/src/paimon/common/memory/memory_segment.cpp
@@ -23,14 +23,12 @@ namespace paimon {
 int32_t MemorySegment::Compare(const MemorySegment& seg2, int32_t offset1, int32_t offset2,
                                int32_t len) const {
     while (len >= 8) {
-        // TODO(yonghao.fyh): support big endian, decide SmallEndian or BigEndian
-        // long l1 = GetLongBigEndian(offset1);
-        // long l2 = seg2.getLongBigEndian(offset2);
-        uint64_t l1 = GetValue<int64_t>(offset1);
-        uint64_t l2 = seg2.GetValue<int64_t>(offset2);
-
-        if (l1 != l2) {
-            return (l1 < l2) ? -1 : 1;
+        if (GetValue<int64_t>(offset1) != seg2.GetValue<int64_t>(offset2)) {
+            // the first differing byte, not the native word, decides the order
+            return std::memcmp(heap_memory_->data() + offset1,
+                               seg2.heap_memory_->data() + offset2, 8) < 0
+                       ? -1
+                       : 1;
         }
 
         offset1 += 8;
-- 
2.43.0


From a0738f8de0c88ad3c373ed3c8d89d889aa71ed81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:42 +0000
Subject: [PATCH 08/37] fix: reject a blob descriptor with an impossible uri
 length

A corrupted length made the deserialization throw or allocate up to 2 GiB
instead of returning an error.
---
 src/paimon/common/data/blob_descriptor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/common/data/blob_descriptor.cpp b/src/paimon/common/data/blob_descriptor.cpp
index d0189cd..5e064e4 100644
--- a/src/paimon/common/data/blob_descriptor.cpp
+++ b/src/paimon/common/data/blob_descriptor.cpp
@@ -65,6 +65,10 @@ Result<std::unique_ptr<BlobDescriptor>> BlobDescriptor::Deserialize(const char*
             "Expecting BlobDescriptor version to be {}, but found {}.", CURRENT_VERSION, version));
     }
     PAIMON_ASSIGN_OR_RAISE(int32_t uri_length, in.ReadValue<int32_t>());
+    if (uri_length < 0 || static_cast<uint64_t>(uri_length) > size) {
+        return Status::Invalid(
+            fmt::format("invalid uri length {} in BlobDescriptor of {} bytes", uri_length, size));
+    }
     std::string uri(uri_length, '\0');
     PAIMON_RETURN_NOT_OK(in.Read(uri.data(), uri.size()));
     PAIMON_ASSIGN_OR_RAISE(int64_t offset, in.ReadValue<int64_t>());
-- 
2.43.0


From a2d6325218dfdaf2c6dfe5b2720edc56226020f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:42 +0000
Subject: [PATCH 09/37] fix: reject a global index result with an impossible
 bitmap length

---
 src/paimon/common/global_index/global_index_result.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/common/global_index/global_index_result.cpp b/src/paimon/common/global_index/global_index_result.cpp
index 061dc6f..e602e29 100644
--- a/src/paimon/common/global_index/global_index_result.cpp
+++ b/src/paimon/common/global_index/global_index_result.cpp
@@ -113,6 +113,10 @@ Result<std::shared_ptr<GlobalIndexResult>> GlobalIndexResult::Deserialize(
         return Status::Invalid(fmt::format("invalid version {} for GlobalIndexResult", version));
     }
     PAIMON_ASSIGN_OR_RAISE(int32_t bitmap_bytes_len, in.ReadValue<int32_t>());
+    if (bitmap_bytes_len < 0 || static_cast<size_t>(bitmap_bytes_len) > length) {
+        return Status::Invalid(
+            fmt::format("invalid bitmap length {} for GlobalIndexResult", bitmap_bytes_len));
+    }
     auto bitmap_bytes = Bytes::AllocateBytes(bitmap_bytes_len, pool.get());
     PAIMON_RETURN_NOT_OK(in.ReadBytes(bitmap_bytes.get()));
     RoaringBitmap64 bitmap;
-- 
2.43.0


From 7b7d269271ebff79bd77acedbcaec524dd70d0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:42 +0000
Subject: [PATCH 10/37] fix: reject bit slice index input that does not fit the
 index

A value below the declared minimum wrote outside the slices, and a corrupted
slice count made the deserialization throw.
---
 .../file_index/bsi/bit_slice_index_roaring_bitmap.cpp     | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
index 468ffb3..ffe9ca0 100644
--- a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
+++ b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
@@ -59,6 +59,10 @@ Result<std::shared_ptr<BitSliceIndexRoaringBitmap>> BitSliceIndexRoaringBitmap::
 
     // deserialize slices
     PAIMON_ASSIGN_OR_RAISE(int32_t slice_num, data_input_stream.ReadValue<int32_t>());
+    if (slice_num < 0 || slice_num > 64) {
+        return Status::Invalid(
+            fmt::format("deserialize bsi index fail, invalid slice number {}", slice_num));
+    }
     std::vector<RoaringBitmap32> slices;
     slices.reserve(slice_num);
     for (int32_t i = 0; i < slice_num; i++) {
@@ -256,6 +260,10 @@ Status BitSliceIndexRoaringBitmap::Appender::Append(int32_t rid, int64_t value)
         return Status::Invalid(
             fmt::format("value {} is too large for append to BitSliceIndexRoaringBitmap", value));
     }
+    if (value < bsi_->min_) {
+        return Status::Invalid(
+            fmt::format("value {} is too small for append to BitSliceIndexRoaringBitmap", value));
+    }
     if (bsi_->ebm_.Contains(rid)) {
         return Status::Invalid(
             fmt::format("rid {} is already exists for append to BitSliceIndexRoaringBitmap", rid));
-- 
2.43.0


From f6432fefedef98edf798bc6ee048cf4b8498f390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:14 +0000
Subject: [PATCH 11/37] fix: hand an exception of an asynchronous task to its
 future

The documentation promises this, but the exception ended the process.
---
 src/paimon/common/executor/future.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/paimon/common/executor/future.h b/src/paimon/common/executor/future.h
index 9f140fb..8beded4 100644
--- a/src/paimon/common/executor/future.h
+++ b/src/paimon/common/executor/future.h
@@ -16,6 +16,7 @@
 
 #pragma once
 
+#include <exception>
 #include <functional>
 #include <future>
 #include <memory>
@@ -66,11 +67,15 @@ auto Via(Executor* executor, Func&& func) -> std::future<decltype(func())> {
 
     // Wrap the task and submit it to the executor.
     executor->Add([promise, func = std::forward<Func>(func)]() mutable {
-        if constexpr (std::is_void_v<ResultType>) {
-            func();
-            promise->set_value();
-        } else {
-            promise->set_value(func());
+        try {
+            if constexpr (std::is_void_v<ResultType>) {
+                func();
+                promise->set_value();
+            } else {
+                promise->set_value(func());
+            }
+        } catch (...) {
+            promise->set_exception(std::current_exception());
         }
     });
 
-- 
2.43.0


From c0f3d0780cd4bc66239ace3f794a41ed48f72554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:34 +0000
Subject: [PATCH 12/37] fix: do not lose the peak memory usage in a race

Two threads that allocate at the same time could overwrite a higher peak with
a lower one.
---
 src/paimon/common/memory/memory_pool.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/paimon/common/memory/memory_pool.cpp b/src/paimon/common/memory/memory_pool.cpp
index a0f3573..9359228 100644
--- a/src/paimon/common/memory/memory_pool.cpp
+++ b/src/paimon/common/memory/memory_pool.cpp
@@ -39,10 +39,19 @@ class MemoryPoolImpl : public MemoryPool {
     }
 
  protected:
+    void AddAllocated(int64_t size);
+
     std::atomic<int64_t> total_allocated_size = {0};
     std::atomic<int64_t> max_allocated = {0};
 };
 
+void MemoryPoolImpl::AddAllocated(int64_t size) {
+    int64_t allocated = total_allocated_size.fetch_add(size) + size;
+    int64_t max = max_allocated.load();
+    while (allocated > max && !max_allocated.compare_exchange_weak(max, allocated)) {
+    }
+}
+
 void* MemoryPoolImpl::Malloc(uint64_t size, uint64_t alignment) {
     void* memptr = nullptr;
 #define DEFAULT_ALIGNMENT 64
@@ -50,16 +59,14 @@ void* MemoryPoolImpl::Malloc(uint64_t size, uint64_t alignment) {
                        alignment == 0 ? DEFAULT_ALIGNMENT : alignment, size) != 0) {
         throw std::bad_alloc();
     }
-    total_allocated_size.fetch_add(size);
-    max_allocated.store(std::max(total_allocated_size.load(), max_allocated.load()));
+    AddAllocated(static_cast<int64_t>(size));
     return memptr;
 }
 
 void* MemoryPoolImpl::Realloc(void* p, size_t old_size, size_t new_size, size_t alignment) {
     if (alignment == 0) {
         void* memptr = ::realloc(p, new_size);
-        total_allocated_size.fetch_add(new_size - old_size);
-        max_allocated.store(std::max(total_allocated_size.load(), max_allocated.load()));
+        AddAllocated(static_cast<int64_t>(new_size) - static_cast<int64_t>(old_size));
         return memptr;
     } else {
         if (p == nullptr) {
@@ -70,8 +77,7 @@ void* MemoryPoolImpl::Realloc(void* p, size_t old_size, size_t new_size, size_t
             Free(p, old_size);
             return Malloc(0, alignment);
         } else if (new_size < old_size && old_size / 2 < new_size) {
-            total_allocated_size.fetch_add(new_size - old_size);
-            max_allocated.store(std::max(total_allocated_size.load(), max_allocated.load()));
+            AddAllocated(static_cast<int64_t>(new_size) - static_cast<int64_t>(old_size));
             // do not shrink to fit, when new size is not very small, to avoid memory copy
             return p;
         } else {
-- 
2.43.0


From 34474e6b8b7076e29fe520c42e76a1761ef26280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:54:45 +0000
Subject: [PATCH 13/37] fix: publish singleton instances through an atomic
 pointer

The first check of the double-checked locking read a plain pointer that
another thread may be writing, which is a data race.
---
 src/paimon/common/factories/singleton.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/paimon/common/factories/singleton.cpp b/src/paimon/common/factories/singleton.cpp
index a973225..c9397ba 100644
--- a/src/paimon/common/factories/singleton.cpp
+++ b/src/paimon/common/factories/singleton.cpp
@@ -19,6 +19,7 @@
 
 #include "paimon/factories/singleton.h"
 
+#include <atomic>
 #include <mutex>
 
 #include "paimon/common/factories/io_hook.h"
@@ -28,15 +29,18 @@ namespace paimon {
 
 template <typename T, typename InstPolicy>
 T* Singleton<T, InstPolicy>::GetInstance() {
-    static T* ptr;
+    static std::atomic<T*> ptr;
     static std::mutex mutex;
-    if (PAIMON_UNLIKELY(!ptr)) {
+    T* instance = ptr.load(std::memory_order_acquire);
+    if (PAIMON_UNLIKELY(!instance)) {
         std::lock_guard<std::mutex> lg(mutex);
-        if (!ptr) {
-            InstPolicy::Create(ptr);
+        instance = ptr.load(std::memory_order_relaxed);
+        if (!instance) {
+            InstPolicy::Create(instance);
+            ptr.store(instance, std::memory_order_release);
         }
     }
-    return const_cast<T*>(ptr);
+    return instance;
 }
 
 template class Singleton<FactoryCreator>;
-- 
2.43.0


From 01bd06f749d8dcae8d69544915921c56680ea47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:39 +0000
Subject: [PATCH 14/37] fix: refuse a deletion file list with an impossible
 count

---
 src/paimon/core/table/source/deletion_file.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/paimon/core/table/source/deletion_file.h b/src/paimon/core/table/source/deletion_file.h
index f15d9ab..38f98e4 100644
--- a/src/paimon/core/table/source/deletion_file.h
+++ b/src/paimon/core/table/source/deletion_file.h
@@ -95,7 +95,9 @@ struct DeletionFile {
         PAIMON_ASSIGN_OR_RAISE(char has_deletion_file, in->ReadValue<char>());
         if (has_deletion_file == static_cast<char>(1)) {
             PAIMON_ASSIGN_OR_RAISE(int32_t size, in->ReadValue<int32_t>());
-            files.reserve(size);
+            if (size < 0) {
+                return Status::Invalid(fmt::format("invalid deletion file count: {}", size));
+            }
             for (int32_t i = 0; i < size; i++) {
                 std::optional<DeletionFile> file;
                 if (version >= 4) {
-- 
2.43.0


From 69237e4dffe599a75cde3372dcf94cdebfbfbb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:39 +0000
Subject: [PATCH 15/37] fix: report a failed resize instead of counting memory
 that was never allocated

---
 src/paimon/common/memory/memory_pool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/paimon/common/memory/memory_pool.cpp b/src/paimon/common/memory/memory_pool.cpp
index 9359228..985d410 100644
--- a/src/paimon/common/memory/memory_pool.cpp
+++ b/src/paimon/common/memory/memory_pool.cpp
@@ -66,6 +66,9 @@ void* MemoryPoolImpl::Malloc(uint64_t size, uint64_t alignment) {
 void* MemoryPoolImpl::Realloc(void* p, size_t old_size, size_t new_size, size_t alignment) {
     if (alignment == 0) {
         void* memptr = ::realloc(p, new_size);
+        if (memptr == nullptr && new_size > 0) {
+            throw std::bad_alloc();
+        }
         AddAllocated(static_cast<int64_t>(new_size) - static_cast<int64_t>(old_size));
         return memptr;
     } else {
-- 
2.43.0


From ba45843bdb73a62ec034a1b043faac70dbaa0791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:46 +0000
Subject: [PATCH 16/37] fix: keep commit messages unchanged when assigning row
 ids

Assigning sequence numbers and row ids wrote through to the file metadata
shared with the commit message. A second attempt with the same message kept
the ids of the first one, so ids overlapped with those of another commit.
---
 src/paimon/core/manifest/manifest_entry.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/paimon/core/manifest/manifest_entry.h b/src/paimon/core/manifest/manifest_entry.h
index b645904..3c10a0a 100644
--- a/src/paimon/core/manifest/manifest_entry.h
+++ b/src/paimon/core/manifest/manifest_entry.h
@@ -140,10 +140,13 @@ class ManifestEntry : public FileEntry {
     }
 
     void AssignSequenceNumber(int64_t min_sequence_number, int64_t max_sequence_number) {
+        // the file meta may be shared with the commit message, which can be committed again
+        file_ = std::make_shared<DataFileMeta>(*file_);
         file_->AssignSequenceNumber(min_sequence_number, max_sequence_number);
     }
 
     void AssignFirstRowId(int64_t first_row_id) {
+        file_ = std::make_shared<DataFileMeta>(*file_);
         file_->AssignFirstRowId(first_row_id);
     }
 
-- 
2.43.0


From 2ded2681b522207f87d2ac67d69767b3ba02ce14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:23 +0000
Subject: [PATCH 17/37] fix: do not trust a LATEST hint that names no snapshot

The hint file is only advisory: it is written without atomicity and may be
stale or torn. When it named a snapshot that does not exist, that id was
returned as the latest one and the table could not be read or committed to.
---
 src/paimon/core/utils/snapshot_manager.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/paimon/core/utils/snapshot_manager.cpp b/src/paimon/core/utils/snapshot_manager.cpp
index fc5e2cc..0b24a9a 100644
--- a/src/paimon/core/utils/snapshot_manager.cpp
+++ b/src/paimon/core/utils/snapshot_manager.cpp
@@ -140,9 +140,13 @@ Result<std::optional<int64_t>> SnapshotManager::FindLatest(
         int64_t next_snapshot = snapshot_id.value() + 1;
         // it is the latest only there is no next one
         std::string path = path_func(next_snapshot);
-        PAIMON_ASSIGN_OR_RAISE(bool is_exist, fs_->Exists(path));
-        if (!is_exist) {
-            return snapshot_id;
+        PAIMON_ASSIGN_OR_RAISE(bool next_exist, fs_->Exists(path));
+        if (!next_exist) {
+            // the hint may be stale or torn, it must name a snapshot
+            PAIMON_ASSIGN_OR_RAISE(bool hint_exist, fs_->Exists(path_func(snapshot_id.value())));
+            if (hint_exist) {
+                return snapshot_id;
+            }
         }
     }
     return FindByListFiles([](int64_t lhs, int64_t rhs) -> int64_t { return std::max(lhs, rhs); },
-- 
2.43.0


From 486255cb9dd09580b242441b9ebd45e9b72ef033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:23 +0000
Subject: [PATCH 18/37] fix: report a failing store instead of retrying table
 creation forever

Creating a table retried without end when the schema file could not be
written. A retry only makes sense when another process created the file.
---
 src/paimon/core/schema/schema_manager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/paimon/core/schema/schema_manager.cpp b/src/paimon/core/schema/schema_manager.cpp
index 94ed36a..7226a61 100644
--- a/src/paimon/core/schema/schema_manager.cpp
+++ b/src/paimon/core/schema/schema_manager.cpp
@@ -114,6 +114,11 @@ Result<std::unique_ptr<TableSchema>> SchemaManager::CreateTable(
         if (status.ok()) {
             return table_schema;
         }
+        PAIMON_ASSIGN_OR_RAISE(bool is_exist, file_system_->Exists(schema_path));
+        if (!is_exist) {
+            // nobody else created the table, so trying again would fail the same way
+            return status;
+        }
     }
     return Status::Invalid("create table failed, should not be here");
 }
-- 
2.43.0


From 611883fd0f70debc7d0c45cb4a8865aceac72ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:23 +0000
Subject: [PATCH 19/37] fix: use the options of the table when cleaning orphan
 files

The options stored with the table were merged with those of the caller and
then ignored, so a table with external paths was cleaned although this is
not supported.
---
 src/paimon/core/operation/orphan_files_cleaner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paimon/core/operation/orphan_files_cleaner.cpp b/src/paimon/core/operation/orphan_files_cleaner.cpp
index fd9d849..e2e23e0 100644
--- a/src/paimon/core/operation/orphan_files_cleaner.cpp
+++ b/src/paimon/core/operation/orphan_files_cleaner.cpp
@@ -164,7 +164,7 @@ Result<std::unique_ptr<OrphanFilesCleaner>> OrphanFilesCleaner::Create(
     for (const auto& [key, value] : ctx->GetOptions()) {
         opts[key] = value;
     }
-    PAIMON_ASSIGN_OR_RAISE(CoreOptions options, CoreOptions::FromMap(ctx->GetOptions()));
+    PAIMON_ASSIGN_OR_RAISE(CoreOptions options, CoreOptions::FromMap(opts));
     auto arrow_schema = DataField::ConvertDataFieldsToArrowSchema(schema->Fields());
     PAIMON_ASSIGN_OR_RAISE(std::vector<std::string> external_paths, options.CreateExternalPaths());
     PAIMON_ASSIGN_OR_RAISE(
-- 
2.43.0


From 4640d8338668bce484e2f36d165953602991f106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:23 +0000
Subject: [PATCH 20/37] fix: do not clean a table whose tags or branches cannot
 be listed

A failed listing was taken for an empty directory, and files which only a
tag or a branch uses could then be deleted.
---
 .../operation/orphan_files_cleaner_impl.cpp     | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/paimon/core/operation/orphan_files_cleaner_impl.cpp b/src/paimon/core/operation/orphan_files_cleaner_impl.cpp
index 7473472..8a18180 100644
--- a/src/paimon/core/operation/orphan_files_cleaner_impl.cpp
+++ b/src/paimon/core/operation/orphan_files_cleaner_impl.cpp
@@ -83,10 +83,23 @@ bool OrphanFilesCleanerImpl::SupportToClean(const std::string& file_name) {
 }
 
 Result<std::set<std::string>> OrphanFilesCleanerImpl::Clean() {
-    if (!MinimalTryBestListingDirs(PathUtil::JoinPath(root_path_, "tag")).empty()) {
+    // unlike the other listings these must not fail silently
+    auto has_content = [this](const std::string& name) -> Result<bool> {
+        std::string path = PathUtil::JoinPath(root_path_, name);
+        PAIMON_ASSIGN_OR_RAISE(bool is_exist, fs_->Exists(path));
+        if (!is_exist) {
+            return false;
+        }
+        std::vector<std::unique_ptr<BasicFileStatus>> file_statuses;
+        PAIMON_RETURN_NOT_OK(fs_->ListDir(path, &file_statuses));
+        return !file_statuses.empty();
+    };
+    PAIMON_ASSIGN_OR_RAISE(bool has_tag, has_content("tag"));
+    if (has_tag) {
         return Status::NotImplemented("OrphanFilesCleaner do not support cleaning table with tag");
     }
-    if (!MinimalTryBestListingDirs(PathUtil::JoinPath(root_path_, "branch")).empty()) {
+    PAIMON_ASSIGN_OR_RAISE(bool has_branch, has_content("branch"));
+    if (has_branch) {
         return Status::NotImplemented(
             "OrphanFilesCleaner do not support cleaning table with branch");
     }
-- 
2.43.0


From 25f28a5dd01611bedaffbefb15a52928880076f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:31 +0000
Subject: [PATCH 21/37] fix: rename local files that are given with a scheme

The paths were handed to the operating system together with their scheme,
so renaming, and storing atomically, failed for "file:" paths.
---
 src/paimon/fs/local/local_file_system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paimon/fs/local/local_file_system.cpp b/src/paimon/fs/local/local_file_system.cpp
index 07a3fe3..0dd7255 100644
--- a/src/paimon/fs/local/local_file_system.cpp
+++ b/src/paimon/fs/local/local_file_system.cpp
@@ -224,7 +224,7 @@ Status LocalFileSystem::Rename(const std::string& src, const std::string& dst) c
     PAIMON_ASSIGN_OR_RAISE(LocalFile dst_file, ToFile(dst));
     auto parent = dst_file.GetParentFile();
     PAIMON_RETURN_NOT_OK(Mkdirs(parent.GetAbsolutePath()));
-    if (::rename(src.c_str(), dst.c_str()) != 0) {
+    if (::rename(src_file.GetAbsolutePath().c_str(), dst_file.GetAbsolutePath().c_str()) != 0) {
         int32_t cur_errno = errno;
         return Status::IOError(err_msg, std::strerror(cur_errno));
     }
-- 
2.43.0


From 456e0f8a83aa31d88a0b27a32343485724e79773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:31 +0000
Subject: [PATCH 22/37] fix: do not replace a file that appears while renaming
 to its name

The target was checked before the rename, which then replaced a file that
another process had created in between. Two committers could both be told
that they had created the same snapshot.
---
 src/paimon/fs/local/local_file_system.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/paimon/fs/local/local_file_system.cpp b/src/paimon/fs/local/local_file_system.cpp
index 0dd7255..01581c3 100644
--- a/src/paimon/fs/local/local_file_system.cpp
+++ b/src/paimon/fs/local/local_file_system.cpp
@@ -224,7 +224,15 @@ Status LocalFileSystem::Rename(const std::string& src, const std::string& dst) c
     PAIMON_ASSIGN_OR_RAISE(LocalFile dst_file, ToFile(dst));
     auto parent = dst_file.GetParentFile();
     PAIMON_RETURN_NOT_OK(Mkdirs(parent.GetAbsolutePath()));
-    if (::rename(src_file.GetAbsolutePath().c_str(), dst_file.GetAbsolutePath().c_str()) != 0) {
+    const char* src_path = src_file.GetAbsolutePath().c_str();
+    const char* dst_path = dst_file.GetAbsolutePath().c_str();
+    // the target may have been created since it was checked, it must not be replaced
+    int32_t ret = ::renameat2(AT_FDCWD, src_path, AT_FDCWD, dst_path, RENAME_NOREPLACE);
+    if (ret != 0 && (errno == EINVAL || errno == ENOSYS)) {
+        // not supported by the underlying file system
+        ret = ::rename(src_path, dst_path);
+    }
+    if (ret != 0) {
         int32_t cur_errno = errno;
         return Status::IOError(err_msg, std::strerror(cur_errno));
     }
-- 
2.43.0


From 6e7ba8d8eb6991f5991f7549c10040a3efd38fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:31 +0000
Subject: [PATCH 23/37] fix: list a local directory while files are removed
 from it

A file that was removed between reading the directory and asking for its
status made the whole listing fail, although listing skips absent files.
---
 src/paimon/fs/local/local_file.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/paimon/fs/local/local_file.cpp b/src/paimon/fs/local/local_file.cpp
index c9a1381..f4095e6 100644
--- a/src/paimon/fs/local/local_file.cpp
+++ b/src/paimon/fs/local/local_file.cpp
@@ -133,8 +133,9 @@ Result<std::unique_ptr<LocalFileStatus>> LocalFile::GetFileStatus() const {
     struct stat buf;
     if (stat(path_.c_str(), &buf) < 0) {
         int32_t cur_errno = errno;
-        return Status::IOError(
-            fmt::format("get file '{}' status failed, ec: {}", path_, std::strerror(cur_errno)));
+        std::string msg =
+            fmt::format("get file '{}' status failed, ec: {}", path_, std::strerror(cur_errno));
+        return cur_errno == ENOENT ? Status::NotExist(msg) : Status::IOError(msg);
     }
     return std::make_unique<LocalFileStatus>(path_, buf.st_size, buf.st_mtime * 1000,
                                              S_ISDIR(buf.st_mode));
-- 
2.43.0


From 88f67d952c29a7e46f92ba1fedf28291243c23f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:31 +0000
Subject: [PATCH 24/37] fix: do not truncate a file that appears while creating
 it without overwrite

The existence of the file was only checked beforehand, so two processes
creating the same file without overwrite both succeeded and one of them
lost its data.
---
 src/paimon/fs/local/local_file.cpp        | 4 ++--
 src/paimon/fs/local/local_file.h          | 2 +-
 src/paimon/fs/local/local_file_system.cpp | 8 +++++---
 src/paimon/fs/local/local_file_system.h   | 3 ++-
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/paimon/fs/local/local_file.cpp b/src/paimon/fs/local/local_file.cpp
index f4095e6..3497732 100644
--- a/src/paimon/fs/local/local_file.cpp
+++ b/src/paimon/fs/local/local_file.cpp
@@ -276,7 +276,7 @@ Status LocalFile::Flush() {
         fmt::format("flush '{}' fail, can not flush file which not opened, ec: EBADF", path_));
 }
 
-Status LocalFile::OpenFile(bool is_read_file) {
+Status LocalFile::OpenFile(bool is_read_file, bool exclusive) {
     if (is_read_file) {
         PAIMON_ASSIGN_OR_RAISE(bool is_exist, Exists());
         if (!is_exist) {
@@ -292,7 +292,7 @@ Status LocalFile::OpenFile(bool is_read_file) {
         file_ = fopen(path_.c_str(), "r");
     } else {
         CHECK_HOOK();
-        file_ = fopen(path_.c_str(), "w");
+        file_ = fopen(path_.c_str(), exclusive ? "wx" : "w");
     }
     if (file_ == nullptr) {
         return Status::IOError(fmt::format("open '{}' fail, ec: {}", path_, std::strerror(errno)));
diff --git a/src/paimon/fs/local/local_file.h b/src/paimon/fs/local/local_file.h
index cb4b353..d194089 100644
--- a/src/paimon/fs/local/local_file.h
+++ b/src/paimon/fs/local/local_file.h
@@ -51,7 +51,7 @@ class LocalFile {
     Result<std::unique_ptr<LocalFileStatus>> GetFileStatus() const;
     Result<uint64_t> Length() const;
     Result<int64_t> LastModifiedTimeMs() const;
-    Status OpenFile(bool is_read_file);
+    Status OpenFile(bool is_read_file, bool exclusive = false);
     Result<int32_t> Read() {
         return Status::NotImplemented("");
     }
diff --git a/src/paimon/fs/local/local_file_system.cpp b/src/paimon/fs/local/local_file_system.cpp
index 01581c3..ac316fc 100644
--- a/src/paimon/fs/local/local_file_system.cpp
+++ b/src/paimon/fs/local/local_file_system.cpp
@@ -66,7 +66,8 @@ Result<std::unique_ptr<OutputStream>> LocalFileSystem::Create(const std::string&
     PAIMON_ASSIGN_OR_RAISE(LocalFile file, ToFile(path));
     LocalFile parent = file.GetParentFile();
     PAIMON_RETURN_NOT_OK(Mkdirs(parent.GetAbsolutePath()));
-    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<LocalOutputStream> out, LocalOutputStream::Create(file));
+    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<LocalOutputStream> out,
+                           LocalOutputStream::Create(file, /*exclusive=*/!overwrite));
     return out;
 }
 
@@ -310,8 +311,9 @@ Status LocalInputStream::Close() {
 }
 
 // output stream
-Result<std::unique_ptr<LocalOutputStream>> LocalOutputStream::Create(LocalFile& file) {
-    PAIMON_RETURN_NOT_OK(file.OpenFile(/*is_read_file=*/false));
+Result<std::unique_ptr<LocalOutputStream>> LocalOutputStream::Create(LocalFile& file,
+                                                                     bool exclusive) {
+    PAIMON_RETURN_NOT_OK(file.OpenFile(/*is_read_file=*/false, exclusive));
     return std::unique_ptr<LocalOutputStream>(new LocalOutputStream(file));
 }
 
diff --git a/src/paimon/fs/local/local_file_system.h b/src/paimon/fs/local/local_file_system.h
index 9ab4bb1..4535d57 100644
--- a/src/paimon/fs/local/local_file_system.h
+++ b/src/paimon/fs/local/local_file_system.h
@@ -91,7 +91,8 @@ class LocalInputStream : public InputStream {
 
 class LocalOutputStream : public OutputStream {
  public:
-    static Result<std::unique_ptr<LocalOutputStream>> Create(LocalFile& file);
+    static Result<std::unique_ptr<LocalOutputStream>> Create(LocalFile& file,
+                                                             bool exclusive = false);
 
     Result<int64_t> GetPos() const override;
     Result<int32_t> Write(const char* buffer, uint32_t size) override;
-- 
2.43.0


From 90a9f05590751c966b70939fc15750dbc59f3ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:44 +0000
Subject: [PATCH 25/37] fix: keep key order ascending when sequence fields sort
 descending

With sequence.field.sort-order=descending the writer compared primary keys
in descending order while each batch is sorted by ascending keys, so rows of
one key were not merged and files were not sorted by key.  Inside a batch the
sequence fields were still sorted ascending, so the wrong row won.  Keys are
now always compared ascending and the batch sort follows the option.
---
 src/paimon/core/io/key_value_in_memory_record_reader.cpp | 7 +++++--
 src/paimon/core/io/key_value_in_memory_record_reader.h   | 3 ++-
 src/paimon/core/mergetree/merge_tree_writer.cpp          | 2 +-
 src/paimon/core/operation/file_store_write.cpp           | 2 +-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/paimon/core/io/key_value_in_memory_record_reader.cpp b/src/paimon/core/io/key_value_in_memory_record_reader.cpp
index 1297fed..2377b99 100644
--- a/src/paimon/core/io/key_value_in_memory_record_reader.cpp
+++ b/src/paimon/core/io/key_value_in_memory_record_reader.cpp
@@ -75,10 +75,11 @@ KeyValueInMemoryRecordReader::KeyValueInMemoryRecordReader(
     const std::vector<std::string>& user_defined_sequence_fields,
     const std::shared_ptr<FieldsComparator>& key_comparator,
     const std::shared_ptr<MergeFunctionWrapper<KeyValue>>& merge_function_wrapper,
-    const std::shared_ptr<MemoryPool>& pool)
+    const std::shared_ptr<MemoryPool>& pool, bool sequence_fields_ascending)
     : last_sequence_num_(last_sequence_num),
       primary_keys_(primary_keys),
       user_defined_sequence_fields_(user_defined_sequence_fields),
+      sequence_fields_ascending_(sequence_fields_ascending),
       pool_(pool),
       value_struct_array_(std::move(struct_array)),
       row_kinds_(std::move(row_kinds)),
@@ -125,7 +126,9 @@ KeyValueInMemoryRecordReader::SortBatch() const {
         sort_keys.emplace_back(name, arrow::compute::SortOrder::Ascending);
     }
     for (const auto& name : user_defined_sequence_fields_) {
-        sort_keys.emplace_back(name, arrow::compute::SortOrder::Ascending);
+        sort_keys.emplace_back(name, sequence_fields_ascending_
+                                         ? arrow::compute::SortOrder::Ascending
+                                         : arrow::compute::SortOrder::Descending);
     }
     auto sort_options =
         arrow::compute::SortOptions(sort_keys, arrow::compute::NullPlacement::AtStart);
diff --git a/src/paimon/core/io/key_value_in_memory_record_reader.h b/src/paimon/core/io/key_value_in_memory_record_reader.h
index ec6f7b0..295be3f 100644
--- a/src/paimon/core/io/key_value_in_memory_record_reader.h
+++ b/src/paimon/core/io/key_value_in_memory_record_reader.h
@@ -51,7 +51,7 @@ class KeyValueInMemoryRecordReader : public KeyValueRecordReader {
         const std::vector<std::string>& user_defined_sequence_fields,
         const std::shared_ptr<FieldsComparator>& key_comparator,
         const std::shared_ptr<MergeFunctionWrapper<KeyValue>>& merge_function_wrapper,
-        const std::shared_ptr<MemoryPool>& pool);
+        const std::shared_ptr<MemoryPool>& pool, bool sequence_fields_ascending = true);
 
     class Iterator : public KeyValueRecordReader::Iterator {
      public:
@@ -82,6 +82,7 @@ class KeyValueInMemoryRecordReader : public KeyValueRecordReader {
     int64_t last_sequence_num_ = -1;
     std::vector<std::string> primary_keys_;
     std::vector<std::string> user_defined_sequence_fields_;
+    bool sequence_fields_ascending_ = true;
     std::shared_ptr<MemoryPool> pool_;
     std::shared_ptr<arrow::StructArray> value_struct_array_;
     std::vector<RecordBatch::RowKind> row_kinds_;
diff --git a/src/paimon/core/mergetree/merge_tree_writer.cpp b/src/paimon/core/mergetree/merge_tree_writer.cpp
index db9216f..8d89d05 100644
--- a/src/paimon/core/mergetree/merge_tree_writer.cpp
+++ b/src/paimon/core/mergetree/merge_tree_writer.cpp
@@ -131,7 +131,7 @@ Status MergeTreeWriter::Flush() {
         auto in_memory_reader = std::make_unique<KeyValueInMemoryRecordReader>(
             sequence_number, std::move(batch_vec_[i]), std::move(row_kinds_vec_[i]),
             trimmed_primary_keys_, options_.GetSequenceField(), key_comparator_,
-            merge_function_wrapper_, pool_);
+            merge_function_wrapper_, pool_, options_.SequenceFieldSortOrderIsAscending());
         readers.push_back(std::move(in_memory_reader));
     }
     batch_vec_.clear();
diff --git a/src/paimon/core/operation/file_store_write.cpp b/src/paimon/core/operation/file_store_write.cpp
index ac21d0c..7907a32 100644
--- a/src/paimon/core/operation/file_store_write.cpp
+++ b/src/paimon/core/operation/file_store_write.cpp
@@ -144,7 +144,7 @@ Result<std::unique_ptr<FileStoreWrite>> FileStoreWrite::Create(std::unique_ptr<W
                                schema->GetFields(trimmed_primary_keys));
         PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<FieldsComparator> key_comparator,
                                FieldsComparator::Create(trimmed_primary_key_fields,
-                                                        options.SequenceFieldSortOrderIsAscending(),
+                                                        /*is_ascending_order=*/true,
                                                         /*use_view=*/true));
         auto primary_keys = schema->PrimaryKeys();
         PAIMON_ASSIGN_OR_RAISE(
-- 
2.43.0


From 8a9d5bea56b130562820ba29ff663734a5a623c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:13 +0000
Subject: [PATCH 26/37] fix: drop keys whose records are all ignored deletes

With ignore-delete, two deletes of one key in one batch made the writer
dereference an empty merge result.  With the partial-update engine, two
deletes of one key produced a row of nulls instead of nothing.
---
 .../io/key_value_in_memory_record_reader.cpp  | 24 +++++++++++++++----
 .../io/key_value_in_memory_record_reader.h    |  9 ++++++-
 .../compact/partial_update_merge_function.cpp | 10 ++++----
 .../compact/partial_update_merge_function.h   |  4 ++++
 4 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/src/paimon/core/io/key_value_in_memory_record_reader.cpp b/src/paimon/core/io/key_value_in_memory_record_reader.cpp
index 2377b99..3fb67e5 100644
--- a/src/paimon/core/io/key_value_in_memory_record_reader.cpp
+++ b/src/paimon/core/io/key_value_in_memory_record_reader.cpp
@@ -39,6 +39,21 @@ namespace paimon {
 class MemoryPool;
 
 Result<KeyValue> KeyValueInMemoryRecordReader::Iterator::Next() {
+    assert(HasNext());
+    KeyValue current = std::move(next_).value();
+    PAIMON_RETURN_NOT_OK(Advance());
+    return current;
+}
+
+Status KeyValueInMemoryRecordReader::Iterator::Advance() {
+    next_ = std::nullopt;
+    while (!next_ && cursor_ < reader_->value_struct_array_->length()) {
+        PAIMON_ASSIGN_OR_RAISE(next_, MergeNextKey());
+    }
+    return Status::OK();
+}
+
+Result<std::optional<KeyValue>> KeyValueInMemoryRecordReader::Iterator::MergeNextKey() {
     reader_->merge_function_wrapper_->Reset();
     std::shared_ptr<InternalRow> current_key;
     while (cursor_ < reader_->value_struct_array_->length()) {
@@ -63,10 +78,7 @@ Result<KeyValue> KeyValueInMemoryRecordReader::Iterator::Next() {
         PAIMON_RETURN_NOT_OK(reader_->merge_function_wrapper_->Add(std::move(kv)));
         cursor_++;
     }
-    PAIMON_ASSIGN_OR_RAISE(std::optional<KeyValue> result,
-                           reader_->merge_function_wrapper_->GetResult());
-    assert(result != std::nullopt);
-    return std::move(result).value();
+    return reader_->merge_function_wrapper_->GetResult();
 }
 
 KeyValueInMemoryRecordReader::KeyValueInMemoryRecordReader(
@@ -107,7 +119,9 @@ Result<std::unique_ptr<KeyValueRecordReader::Iterator>> KeyValueInMemoryRecordRe
     }
 
     PAIMON_ASSIGN_OR_RAISE(sort_indices_, SortBatch());
-    return std::make_unique<KeyValueInMemoryRecordReader::Iterator>(this);
+    auto iterator = std::make_unique<KeyValueInMemoryRecordReader::Iterator>(this);
+    PAIMON_RETURN_NOT_OK(iterator->Advance());
+    return iterator;
 }
 
 void KeyValueInMemoryRecordReader::Close() {
diff --git a/src/paimon/core/io/key_value_in_memory_record_reader.h b/src/paimon/core/io/key_value_in_memory_record_reader.h
index 295be3f..11786ab 100644
--- a/src/paimon/core/io/key_value_in_memory_record_reader.h
+++ b/src/paimon/core/io/key_value_in_memory_record_reader.h
@@ -18,6 +18,7 @@
 
 #include <cstdint>
 #include <memory>
+#include <optional>
 #include <string>
 #include <vector>
 
@@ -57,12 +58,18 @@ class KeyValueInMemoryRecordReader : public KeyValueRecordReader {
      public:
         explicit Iterator(KeyValueInMemoryRecordReader* reader) : reader_(reader) {}
         bool HasNext() const override {
-            return cursor_ < reader_->value_struct_array_->length();
+            return next_.has_value();
         }
         Result<KeyValue> Next() override;
+        /// Merges the rows of the following keys until one of them leaves a result.
+        Status Advance();
+
+     private:
+        Result<std::optional<KeyValue>> MergeNextKey();
 
      private:
         int64_t cursor_ = 0;
+        std::optional<KeyValue> next_;
         KeyValueInMemoryRecordReader* reader_ = nullptr;
     };
 
diff --git a/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp b/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
index 70f9439..e033d96 100644
--- a/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
+++ b/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
@@ -269,15 +269,15 @@ PartialUpdateMergeFunction::CreateFieldAggregators(
 Status PartialUpdateMergeFunction::Add(KeyValue&& moved_kv) {
     // refresh key object to avoid reference overwritten
     KeyValue kv = std::move(moved_kv);
+    if (ignore_delete_ && kv.value_kind->IsRetract()) {
+        // In 0.7- versions, the delete records might be written into data file even when
+        // ignore-delete configured, so ignoreDelete still needs to be checked
+        return Status::OK();
+    }
     current_key_ = kv.key;
     current_delete_row_ = false;
 
     if (kv.value_kind->IsRetract()) {
-        // In 0.7- versions, the delete records might be written into data file even when
-        // ignore-delete configured, so ignoreDelete still needs to be checked
-        if (ignore_delete_) {
-            return Status::OK();
-        }
         if (field_sequence_enabled_) {
             PAIMON_RETURN_NOT_OK(RetractWithSequenceGroup(std::move(kv)));
             return Status::OK();
diff --git a/src/paimon/core/mergetree/compact/partial_update_merge_function.h b/src/paimon/core/mergetree/compact/partial_update_merge_function.h
index fb78abe..19b6449 100644
--- a/src/paimon/core/mergetree/compact/partial_update_merge_function.h
+++ b/src/paimon/core/mergetree/compact/partial_update_merge_function.h
@@ -79,6 +79,10 @@ class PartialUpdateMergeFunction : public MergeFunction {
     Status Add(KeyValue&& kv) override;
 
     Result<std::optional<KeyValue>> GetResult() override {
+        if (!current_key_) {
+            // all records were ignored
+            return std::optional<KeyValue>();
+        }
         return std::optional<KeyValue>(
             KeyValue(current_delete_row_ ? RowKind::Delete() : RowKind::Insert(), last_seq_num_,
                      KeyValue::UNKNOWN_LEVEL, std::move(current_key_), std::move(row_)));
-- 
2.43.0


From ffe6dd9c7fe2f7227aad145bcb05b47e06414d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:00 +0000
Subject: [PATCH 27/37] fix: keep the key of partial-update deletes merged
 before writing

Data files of key value tables hold the key only as part of the value.  Two
records of one key that the writer merged into a delete, or two retractions
with sequence groups, were written with a null key and a stale sequence
number.  The row they were meant for stayed, or a row of nulls appeared.
---
 .../compact/partial_update_merge_function.cpp      | 14 ++++++++++++--
 .../compact/partial_update_merge_function.h        | 14 +++++++++++---
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp b/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
index e033d96..62c7dda 100644
--- a/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
+++ b/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
@@ -277,6 +277,8 @@ Status PartialUpdateMergeFunction::Add(KeyValue&& moved_kv) {
     current_key_ = kv.key;
     current_delete_row_ = false;
 
+    last_seq_num_ = kv.sequence_number;
+
     if (kv.value_kind->IsRetract()) {
         if (field_sequence_enabled_) {
             PAIMON_RETURN_NOT_OK(RetractWithSequenceGroup(std::move(kv)));
@@ -285,6 +287,7 @@ Status PartialUpdateMergeFunction::Add(KeyValue&& moved_kv) {
         if (remove_record_on_delete_) {
             if (kv.value_kind == RowKind::Delete()) {
                 current_delete_row_ = true;
+                delete_row_ = std::move(kv.value);
                 row_ = std::make_unique<GenericRow>(getters_.size());
             }
             return Status::OK();
@@ -297,7 +300,6 @@ Status PartialUpdateMergeFunction::Add(KeyValue&& moved_kv) {
             "receiving delete records; 3. Configure sequence-group to retract partial "
             "columns.");
     }
-    last_seq_num_ = kv.sequence_number;
     if (field_comparators_.empty()) {
         UpdateNonNullFields(std::move(kv));
     } else {
@@ -360,7 +362,14 @@ Status PartialUpdateMergeFunction::RetractWithSequenceGroup(KeyValue&& kv) {
     std::set<int32_t> updated_sequence_fields;
     for (size_t i = 0; i < getters_.size(); ++i) {
         auto cmp_iter = field_comparators_.find(i);
-        if (cmp_iter != field_comparators_.end()) {
+        if (cmp_iter == field_comparators_.end()) {
+            auto agg_iter = field_aggregators_.find(i);
+            if (agg_iter != field_aggregators_.end() &&
+                agg_iter->second->GetName() == FieldPrimaryKeyAgg::NAME) {
+                // the key of a data file is part of the value, also if all records are retracts
+                row_->SetField(i, getters_[i](*(kv.value)));
+            }
+        } else {
             auto& seq_comparator = cmp_iter->second;
             assert(seq_comparator);
             if (IsEmptySequenceGroup(kv, seq_comparator)) {
@@ -382,6 +391,7 @@ Status PartialUpdateMergeFunction::RetractWithSequenceGroup(KeyValue&& kv) {
                                 sequence_group_partial_delete_.find(field_idx) !=
                                     sequence_group_partial_delete_.end()) {
                                 current_delete_row_ = true;
+                                delete_row_ = std::move(kv.value);
                                 row_ = std::make_unique<GenericRow>(getters_.size());
                                 return Status::OK();
                             } else {
diff --git a/src/paimon/core/mergetree/compact/partial_update_merge_function.h b/src/paimon/core/mergetree/compact/partial_update_merge_function.h
index 19b6449..0b3e583 100644
--- a/src/paimon/core/mergetree/compact/partial_update_merge_function.h
+++ b/src/paimon/core/mergetree/compact/partial_update_merge_function.h
@@ -83,9 +83,16 @@ class PartialUpdateMergeFunction : public MergeFunction {
             // all records were ignored
             return std::optional<KeyValue>();
         }
-        return std::optional<KeyValue>(
-            KeyValue(current_delete_row_ ? RowKind::Delete() : RowKind::Insert(), last_seq_num_,
-                     KeyValue::UNKNOWN_LEVEL, std::move(current_key_), std::move(row_)));
+        if (current_delete_row_) {
+            // the delete record keeps its own value: the key of a data file is part of the value
+            return std::optional<KeyValue>(KeyValue(RowKind::Delete(), last_seq_num_,
+                                                    KeyValue::UNKNOWN_LEVEL,
+                                                    std::move(current_key_),
+                                                    std::move(delete_row_)));
+        }
+        return std::optional<KeyValue>(KeyValue(RowKind::Insert(), last_seq_num_,
+                                                KeyValue::UNKNOWN_LEVEL, std::move(current_key_),
+                                                std::move(row_)));
     };
 
  private:
@@ -126,6 +133,7 @@ class PartialUpdateMergeFunction : public MergeFunction {
 
     std::shared_ptr<InternalRow> current_key_;
     std::unique_ptr<GenericRow> row_;
+    std::unique_ptr<InternalRow> delete_row_;
     int64_t last_seq_num_ = KeyValue::UNKNOWN_SEQUENCE;
     bool current_delete_row_ = false;
 };
-- 
2.43.0


From e0c3717ba93c312df0906286c0a9129e6f7003db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:34 +0000
Subject: [PATCH 28/37] fix: compare code and message of statuses whose details
 are equal

---
 include/paimon/status.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/paimon/status.h b/include/paimon/status.h
index 2de31a7..5269b79 100644
--- a/include/paimon/status.h
+++ b/include/paimon/status.h
@@ -364,7 +364,9 @@ bool Status::Equals(const Status& s) const {
         if ((detail() && !s.detail()) || (!detail() && s.detail())) {
             return false;
         }
-        return *detail() == *s.detail();
+        if (!(*detail() == *s.detail())) {
+            return false;
+        }
     }
 
     return code() == s.code() && message() == s.message();
-- 
2.43.0


From d5bf6a6115c8bf71632f6b25a0da2d5de4a373e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:34 +0000
Subject: [PATCH 29/37] fix: answer comparisons with the smallest long in the
 bit slice index

---
 .../bsi/bit_slice_index_bitmap_file_index.cpp | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.cpp b/src/paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.cpp
index 0bbd993..302299e 100644
--- a/src/paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.cpp
+++ b/src/paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.cpp
@@ -18,6 +18,7 @@
 
 #include <cassert>
 #include <cstddef>
+#include <limits>
 
 #include "fmt/format.h"
 #include "paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.h"
@@ -35,6 +36,11 @@
 namespace paimon {
 class MemoryPool;
 
+namespace {
+// has no absolute value in int64_t, so that no row of the index has it
+constexpr int64_t kMinValue = std::numeric_limits<int64_t>::min();
+}  // namespace
+
 BitSliceIndexBitmapFileIndex::BitSliceIndexBitmapFileIndex(
     const std::map<std::string, std::string>& options) {}
 
@@ -155,6 +161,9 @@ Result<std::shared_ptr<FileIndexResult>> BitSliceIndexBitmapFileIndexReader::Vis
         PAIMON_ASSIGN_OR_RAISE(int64_t value, reader->value_mapper_(literal));
         if (value >= 0) {
             return reader->positive_->GreaterThan(value);
+        } else if (value == kMinValue) {
+            return RoaringBitmap32::Or(reader->positive_->IsNotNull(),
+                                       reader->negative_->IsNotNull());
         } else {
             PAIMON_ASSIGN_OR_RAISE(RoaringBitmap32 b1, reader->negative_->LessThan(-value));
             RoaringBitmap32 b2 = reader->positive_->IsNotNull();
@@ -172,6 +181,9 @@ Result<std::shared_ptr<FileIndexResult>> BitSliceIndexBitmapFileIndexReader::Vis
         PAIMON_ASSIGN_OR_RAISE(int64_t value, reader->value_mapper_(literal));
         if (value >= 0) {
             return reader->positive_->GreaterOrEqual(value);
+        } else if (value == kMinValue) {
+            return RoaringBitmap32::Or(reader->positive_->IsNotNull(),
+                                       reader->negative_->IsNotNull());
         } else {
             PAIMON_ASSIGN_OR_RAISE(RoaringBitmap32 b1, reader->negative_->LessOrEqual(-value));
             RoaringBitmap32 b2 = reader->positive_->IsNotNull();
@@ -187,7 +199,9 @@ Result<std::shared_ptr<FileIndexResult>> BitSliceIndexBitmapFileIndexReader::Vis
     BitmapIndexResult::BitmapSupplier bitmap_supplier =
         [literal = literal, reader = shared_from_this()]() -> Result<RoaringBitmap32> {
         PAIMON_ASSIGN_OR_RAISE(int64_t value, reader->value_mapper_(literal));
-        if (value < 0) {
+        if (value == kMinValue) {
+            return RoaringBitmap32();
+        } else if (value < 0) {
             return reader->negative_->GreaterThan(-value);
         } else {
             PAIMON_ASSIGN_OR_RAISE(RoaringBitmap32 b1, reader->positive_->LessThan(value));
@@ -203,7 +217,9 @@ Result<std::shared_ptr<FileIndexResult>> BitSliceIndexBitmapFileIndexReader::Vis
     BitmapIndexResult::BitmapSupplier bitmap_supplier =
         [literal = literal, reader = shared_from_this()]() -> Result<RoaringBitmap32> {
         PAIMON_ASSIGN_OR_RAISE(int64_t value, reader->value_mapper_(literal));
-        if (value < 0) {
+        if (value == kMinValue) {
+            return RoaringBitmap32();
+        } else if (value < 0) {
             return reader->negative_->GreaterOrEqual(-value);
         } else {
             PAIMON_ASSIGN_OR_RAISE(RoaringBitmap32 b1, reader->positive_->LessOrEqual(value));
@@ -233,7 +249,9 @@ Result<std::shared_ptr<FileIndexResult>> BitSliceIndexBitmapFileIndexReader::Vis
         for (const auto& literal : literals) {
             PAIMON_ASSIGN_OR_RAISE(int64_t value, reader->value_mapper_(literal));
             RoaringBitmap32 equal;
-            if (value < 0) {
+            if (value == kMinValue) {
+                continue;
+            } else if (value < 0) {
                 PAIMON_ASSIGN_OR_RAISE(equal, reader->negative_->Equal(-value));
             } else {
                 PAIMON_ASSIGN_OR_RAISE(equal, reader->positive_->Equal(value));
@@ -256,7 +274,9 @@ Result<std::shared_ptr<FileIndexResult>> BitSliceIndexBitmapFileIndexReader::Vis
         for (const auto& literal : literals) {
             PAIMON_ASSIGN_OR_RAISE(int64_t value, reader->value_mapper_(literal));
             RoaringBitmap32 equal;
-            if (value < 0) {
+            if (value == kMinValue) {
+                continue;
+            } else if (value < 0) {
                 PAIMON_ASSIGN_OR_RAISE(equal, reader->negative_->Equal(-value));
             } else {
                 PAIMON_ASSIGN_OR_RAISE(equal, reader->positive_->Equal(value));
-- 
2.43.0


From a9ae0390f581d4e523ff8af2c0a6bb6efa0f1429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:35 +0000
Subject: [PATCH 30/37] fix: forget partly read metadata of a bitmap index when
 reading it fails

---
 .../common/file_index/bitmap/bitmap_file_index.cpp   | 12 +++++++-----
 .../file_index/bitmap/bitmap_file_index_meta_v2.cpp  |  1 +
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/paimon/common/file_index/bitmap/bitmap_file_index.cpp b/src/paimon/common/file_index/bitmap/bitmap_file_index.cpp
index c05e4b1..3fef3e2 100644
--- a/src/paimon/common/file_index/bitmap/bitmap_file_index.cpp
+++ b/src/paimon/common/file_index/bitmap/bitmap_file_index.cpp
@@ -341,16 +341,18 @@ Status BitmapFileIndexReader::ReadInternalMeta() {
         DataInputStream data_input_stream(input_stream_);
         PAIMON_ASSIGN_OR_RAISE(int8_t version, data_input_stream.ReadValue<int8_t>());
         FieldType converted_type = BitmapFileIndex::ConvertType(data_type_);
+        std::shared_ptr<BitmapFileIndexMeta> meta;
         if (version == BitmapFileIndex::VERSION_1) {
-            bitmap_file_index_meta_ = std::make_shared<BitmapFileIndexMetaV1>(
-                converted_type, head_start_, length_, pool_);
+            meta = std::make_shared<BitmapFileIndexMetaV1>(converted_type, head_start_, length_,
+                                                           pool_);
         } else if (version == BitmapFileIndex::VERSION_2) {
-            bitmap_file_index_meta_ =
-                std::make_shared<BitmapFileIndexMetaV2>(converted_type, length_, pool_);
+            meta = std::make_shared<BitmapFileIndexMetaV2>(converted_type, length_, pool_);
         } else {
             return Status::Invalid(fmt::format("unknown bitmap file index version {}", version));
         }
-        PAIMON_RETURN_NOT_OK(bitmap_file_index_meta_->Deserialize(input_stream_));
+        PAIMON_RETURN_NOT_OK(meta->Deserialize(input_stream_));
+        // meta is kept only when it has been read completely
+        bitmap_file_index_meta_ = std::move(meta);
     }
     return Status::OK();
 }
diff --git a/src/paimon/common/file_index/bitmap/bitmap_file_index_meta_v2.cpp b/src/paimon/common/file_index/bitmap/bitmap_file_index_meta_v2.cpp
index 5ed1ed3..6c7cf86 100644
--- a/src/paimon/common/file_index/bitmap/bitmap_file_index_meta_v2.cpp
+++ b/src/paimon/common/file_index/bitmap/bitmap_file_index_meta_v2.cpp
@@ -204,6 +204,7 @@ Status BitmapFileIndexMetaV2::BitmapIndexBlock::TryDeserialize() {
         PAIMON_ASSIGN_OR_RAISE(std::function<Result<Literal>()> value_reader,
                                outer_->GetValueReader(in, /*move_body_start=*/false));
         PAIMON_ASSIGN_OR_RAISE(int32_t entry_num, in->ReadValue<int32_t>());
+        entry_list.clear();
         entry_list.reserve(entry_num);
         for (int32_t i = 0; i < entry_num; i++) {
             PAIMON_ASSIGN_OR_RAISE(Literal key, value_reader());
-- 
2.43.0


From e4f4f1209dc48538468c477a41ae5f30518a8736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:35 +0000
Subject: [PATCH 31/37] fix: keep rows when a timestamp literal has more digits
 than the file index

---
 .../file_index/bitmap/bitmap_file_index.cpp   | 13 +++++++++++-
 .../bsi/bit_slice_index_bitmap_file_index.cpp | 21 ++++++++++++++++---
 .../bsi/bit_slice_index_bitmap_file_index.h   |  8 ++++++-
 src/paimon/common/utils/date_time_utils.h     | 10 +++++++++
 4 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/src/paimon/common/file_index/bitmap/bitmap_file_index.cpp b/src/paimon/common/file_index/bitmap/bitmap_file_index.cpp
index 3fef3e2..521757c 100644
--- a/src/paimon/common/file_index/bitmap/bitmap_file_index.cpp
+++ b/src/paimon/common/file_index/bitmap/bitmap_file_index.cpp
@@ -273,8 +273,19 @@ Result<std::shared_ptr<FileIndexResult>> BitmapFileIndexReader::VisitNotIn(
     if (literals.empty()) {
         return Status::Invalid("literals cannot be empty in In predicate");
     }
+    // a timestamp with more digits than the index keeps must not exclude the rows it is truncated to
+    std::vector<Literal> excluded;
+    excluded.reserve(literals.size());
+    auto ts_type = std::dynamic_pointer_cast<arrow::TimestampType>(arrow_type_);
+    for (const auto& literal : literals) {
+        if (ts_type && !literal.IsNull() &&
+            !DateTimeUtils::IsRepresentableInIndex(literal.GetValue<Timestamp>(), ts_type)) {
+            continue;
+        }
+        excluded.push_back(literal);
+    }
     return std::make_shared<BitmapIndexResult>(
-        [literals = literals, reader = shared_from_this()]() -> Result<RoaringBitmap32> {
+        [literals = std::move(excluded), reader = shared_from_this()]() -> Result<RoaringBitmap32> {
             PAIMON_RETURN_NOT_OK(reader->ReadInternalMeta());
             // not in does not contain null
             PAIMON_ASSIGN_OR_RAISE(RoaringBitmap32 bitmap, reader->GetInListResultBitmap(literals));
diff --git a/src/paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.cpp b/src/paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.cpp
index 302299e..505beef 100644
--- a/src/paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.cpp
+++ b/src/paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.cpp
@@ -91,8 +91,8 @@ Result<std::shared_ptr<FileIndexReader>> BitSliceIndexBitmapFileIndex::CreateRea
     }
     PAIMON_ASSIGN_OR_RAISE(BitSliceIndexBitmapFileIndex::ValueMapperType value_mapper,
                            GetValueMapper(arrow_type));
-    return std::make_shared<BitSliceIndexBitmapFileIndexReader>(row_number, value_mapper, positive,
-                                                                negative);
+    return std::make_shared<BitSliceIndexBitmapFileIndexReader>(row_number, arrow_type, value_mapper,
+                                                                positive, negative);
 }
 
 // precondition, literal is not null
@@ -146,14 +146,22 @@ Result<BitSliceIndexBitmapFileIndex::ValueMapperType> BitSliceIndexBitmapFileInd
 }
 
 BitSliceIndexBitmapFileIndexReader::BitSliceIndexBitmapFileIndexReader(
-    int32_t row_number, const BitSliceIndexBitmapFileIndex::ValueMapperType& value_mapper,
+    int32_t row_number, const std::shared_ptr<arrow::DataType>& arrow_type,
+    const BitSliceIndexBitmapFileIndex::ValueMapperType& value_mapper,
     const std::shared_ptr<BitSliceIndexRoaringBitmap>& positive,
     const std::shared_ptr<BitSliceIndexRoaringBitmap>& negative)
     : row_number_(row_number),
+      arrow_type_(arrow_type),
       value_mapper_(value_mapper),
       positive_(positive),
       negative_(negative) {}
 
+bool BitSliceIndexBitmapFileIndexReader::IsTruncated(const Literal& literal) const {
+    auto ts_type = std::dynamic_pointer_cast<arrow::TimestampType>(arrow_type_);
+    return ts_type && !literal.IsNull() &&
+           !DateTimeUtils::IsRepresentableInIndex(literal.GetValue<Timestamp>(), ts_type);
+}
+
 Result<std::shared_ptr<FileIndexResult>> BitSliceIndexBitmapFileIndexReader::VisitGreaterThan(
     const Literal& literal) {
     BitmapIndexResult::BitmapSupplier bitmap_supplier =
@@ -196,6 +204,10 @@ Result<std::shared_ptr<FileIndexResult>> BitSliceIndexBitmapFileIndexReader::Vis
 
 Result<std::shared_ptr<FileIndexResult>> BitSliceIndexBitmapFileIndexReader::VisitLessThan(
     const Literal& literal) {
+    if (IsTruncated(literal)) {
+        // the value that the literal is truncated to is less than the literal
+        return VisitLessOrEqual(literal);
+    }
     BitmapIndexResult::BitmapSupplier bitmap_supplier =
         [literal = literal, reader = shared_from_this()]() -> Result<RoaringBitmap32> {
         PAIMON_ASSIGN_OR_RAISE(int64_t value, reader->value_mapper_(literal));
@@ -272,6 +284,9 @@ Result<std::shared_ptr<FileIndexResult>> BitSliceIndexBitmapFileIndexReader::Vis
         std::vector<RoaringBitmap32> result_bitmaps;
         result_bitmaps.reserve(literals.size());
         for (const auto& literal : literals) {
+            if (reader->IsTruncated(literal)) {
+                continue;
+            }
             PAIMON_ASSIGN_OR_RAISE(int64_t value, reader->value_mapper_(literal));
             RoaringBitmap32 equal;
             if (value == kMinValue) {
diff --git a/src/paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.h b/src/paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.h
index 2975329..b8f174d 100644
--- a/src/paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.h
+++ b/src/paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.h
@@ -82,7 +82,8 @@ class BitSliceIndexBitmapFileIndexReader
       public std::enable_shared_from_this<BitSliceIndexBitmapFileIndexReader> {
  public:
     BitSliceIndexBitmapFileIndexReader(
-        int32_t row_number, const BitSliceIndexBitmapFileIndex::ValueMapperType& value_mapper,
+        int32_t row_number, const std::shared_ptr<arrow::DataType>& arrow_type,
+        const BitSliceIndexBitmapFileIndex::ValueMapperType& value_mapper,
         const std::shared_ptr<BitSliceIndexRoaringBitmap>& positive,
         const std::shared_ptr<BitSliceIndexRoaringBitmap>& negative);
 
@@ -101,8 +102,13 @@ class BitSliceIndexBitmapFileIndexReader
     Result<std::shared_ptr<FileIndexResult>> VisitIsNull() override;
     Result<std::shared_ptr<FileIndexResult>> VisitIsNotNull() override;
 
+ private:
+    /// @return Whether the literal has digits that the index does not keep.
+    bool IsTruncated(const Literal& literal) const;
+
  private:
     int32_t row_number_;
+    std::shared_ptr<arrow::DataType> arrow_type_;
     BitSliceIndexBitmapFileIndex::ValueMapperType value_mapper_;
     std::shared_ptr<BitSliceIndexRoaringBitmap> positive_;
     std::shared_ptr<BitSliceIndexRoaringBitmap> negative_;
diff --git a/src/paimon/common/utils/date_time_utils.h b/src/paimon/common/utils/date_time_utils.h
index 96a1537..6acac0d 100644
--- a/src/paimon/common/utils/date_time_utils.h
+++ b/src/paimon/common/utils/date_time_utils.h
@@ -129,6 +129,16 @@ class DateTimeUtils {
         return precision;
     }
 
+    /// File indexes keep timestamps in milliseconds for precision 0-3 and in microseconds otherwise.
+    /// @return Whether `timestamp` has no digits beyond that.
+    static inline bool IsRepresentableInIndex(
+        const Timestamp& timestamp, const std::shared_ptr<arrow::TimestampType>& timestamp_type) {
+        if (GetPrecisionFromType(timestamp_type) <= Timestamp::MILLIS_PRECISION) {
+            return timestamp.GetNanoOfMillisecond() == 0;
+        }
+        return timestamp.GetNanoOfMillisecond() % 1000 == 0;
+    }
+
     static inline TimeType GetTimeTypeFromArrowType(
         const std::shared_ptr<arrow::TimestampType>& timestamp_type) {
         if (timestamp_type->unit() == arrow::TimeUnit::type::SECOND) {
-- 
2.43.0


From d44a0b765a2f93396d3b43f5434c5fa078b141f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:13 +0000
Subject: [PATCH 32/37] fix: return the text unchanged when replacing an empty
 string

---
 src/paimon/common/utils/string_utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/paimon/common/utils/string_utils.cpp b/src/paimon/common/utils/string_utils.cpp
index 88312d0..3cf7b56 100644
--- a/src/paimon/common/utils/string_utils.cpp
+++ b/src/paimon/common/utils/string_utils.cpp
@@ -29,6 +29,9 @@
 namespace paimon {
 std::string StringUtils::Replace(const std::string& text, const std::string& search_string,
                                  const std::string& replacement, int32_t max) {
+    if (search_string.empty()) {
+        return text;
+    }
     std::string str = text;
     size_t pos = str.find(search_string);
     int32_t count = 0;
-- 
2.43.0


From 1b8fdcea1262c82cb80ed18814e4eb84a51a1480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:13 +0000
Subject: [PATCH 33/37] fix: keep row ids of manifests beyond 32 bits

---
 src/paimon/core/manifest/manifest_file_meta_serializer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/paimon/core/manifest/manifest_file_meta_serializer.cpp b/src/paimon/core/manifest/manifest_file_meta_serializer.cpp
index 0d1c382..435653e 100644
--- a/src/paimon/core/manifest/manifest_file_meta_serializer.cpp
+++ b/src/paimon/core/manifest/manifest_file_meta_serializer.cpp
@@ -71,14 +71,14 @@ Result<BinaryRow> ManifestFileMetaSerializer::ToRow(const ManifestFileMeta& reco
     if (!min_row_id) {
         writer.SetNullAt(11);
     } else {
-        writer.WriteInt(11, min_row_id.value());
+        writer.WriteLong(11, min_row_id.value());
     }
 
     auto max_row_id = record.MaxRowId();
     if (!max_row_id) {
         writer.SetNullAt(12);
     } else {
-        writer.WriteInt(12, max_row_id.value());
+        writer.WriteLong(12, max_row_id.value());
     }
     writer.Complete();
     return row;
-- 
2.43.0


From 8e16651b916eebb66bea79feb71963e7a68dcd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:13 +0000
Subject: [PATCH 34/37] fix: keep the comment of a schema read from its text

---
 src/paimon/core/schema/table_schema.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/paimon/core/schema/table_schema.cpp b/src/paimon/core/schema/table_schema.cpp
index 984215d..8d28929 100644
--- a/src/paimon/core/schema/table_schema.cpp
+++ b/src/paimon/core/schema/table_schema.cpp
@@ -210,9 +210,13 @@ Result<std::vector<DataField>> TableSchema::GetFields(
 
 Result<std::unique_ptr<TableSchema>> TableSchema::CreateFromJson(const std::string& json_str) {
     PAIMON_ASSIGN_OR_RAISE(TableSchema table_schema, TableSchema::FromJsonString(json_str));
-    return InitSchema(table_schema.id_, table_schema.fields_, table_schema.highest_field_id_,
-                      table_schema.partition_keys_, table_schema.primary_keys_,
-                      table_schema.options_, table_schema.time_millis_);
+    PAIMON_ASSIGN_OR_RAISE(
+        std::unique_ptr<TableSchema> schema,
+        InitSchema(table_schema.id_, table_schema.fields_, table_schema.highest_field_id_,
+                   table_schema.partition_keys_, table_schema.primary_keys_, table_schema.options_,
+                   table_schema.time_millis_));
+    schema->comment_ = table_schema.comment_;
+    return schema;
 }
 
 Result<std::unique_ptr<TableSchema>> TableSchema::InitSchema(
-- 
2.43.0


From 5234ec950c942e68429386f4807086c4ca1077e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:24:28 +0000
Subject: [PATCH 35/37] fix: refuse an empty list in the default index
 conditions

Asking an index without list support, such as a bloom filter, whether a
value is in an empty list returned no result at all. The evaluation of
the condition then dereferenced it. Refuse the list, as the bitmap index
does.
---
 src/paimon/common/file_index/file_index_reader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/paimon/common/file_index/file_index_reader.cpp b/src/paimon/common/file_index/file_index_reader.cpp
index 7fd1814..7df0c09 100644
--- a/src/paimon/common/file_index/file_index_reader.cpp
+++ b/src/paimon/common/file_index/file_index_reader.cpp
@@ -68,6 +68,9 @@ Result<std::shared_ptr<FileIndexResult>> FileIndexReader::VisitGreaterThan(const
 
 Result<std::shared_ptr<FileIndexResult>> FileIndexReader::VisitIn(
     const std::vector<Literal>& literals) {
+    if (literals.empty()) {
+        return Status::Invalid("literals cannot be empty in In predicate");
+    }
     std::shared_ptr<FileIndexResult> file_index_result;
     for (const Literal& key : literals) {
         if (!file_index_result) {
@@ -82,6 +85,9 @@ Result<std::shared_ptr<FileIndexResult>> FileIndexReader::VisitIn(
 
 Result<std::shared_ptr<FileIndexResult>> FileIndexReader::VisitNotIn(
     const std::vector<Literal>& literals) {
+    if (literals.empty()) {
+        return Status::Invalid("literals cannot be empty in NotIn predicate");
+    }
     std::shared_ptr<FileIndexResult> file_index_result;
     for (const Literal& key : literals) {
         if (!file_index_result) {
-- 
2.43.0


From fe3c2efdab8907f6801af31d18f62b454d5c656b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:56 +0000
Subject: [PATCH 36/37] fix: close a local file when its stream is destroyed

A stream that was dropped without closing it, for example after a failed
read or by the code that reads a deletion vector, kept its file open
forever.
---
 src/paimon/fs/local/local_file_system.cpp | 8 ++++++++
 src/paimon/fs/local/local_file_system.h   | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/src/paimon/fs/local/local_file_system.cpp b/src/paimon/fs/local/local_file_system.cpp
index ac316fc..98d5575 100644
--- a/src/paimon/fs/local/local_file_system.cpp
+++ b/src/paimon/fs/local/local_file_system.cpp
@@ -248,6 +248,10 @@ Result<std::unique_ptr<LocalInputStream>> LocalInputStream::Create(LocalFile& fi
 
 LocalInputStream::LocalInputStream(const LocalFile& file) : file_(file) {}
 
+LocalInputStream::~LocalInputStream() {
+    [[maybe_unused]] auto status = file_.Close();
+}
+
 Status LocalInputStream::Seek(int64_t offset, SeekOrigin origin) {
     if (origin != FS_SEEK_SET && origin != FS_SEEK_CUR && origin != FS_SEEK_END) {
         return Status::Invalid(
@@ -319,6 +323,10 @@ Result<std::unique_ptr<LocalOutputStream>> LocalOutputStream::Create(LocalFile&
 
 LocalOutputStream::LocalOutputStream(const LocalFile& file) : file_(file) {}
 
+LocalOutputStream::~LocalOutputStream() {
+    [[maybe_unused]] auto status = file_.Close();
+}
+
 Result<int64_t> LocalOutputStream::GetPos() const {
     return file_.Tell();
 }
diff --git a/src/paimon/fs/local/local_file_system.h b/src/paimon/fs/local/local_file_system.h
index 4535d57..5eba658 100644
--- a/src/paimon/fs/local/local_file_system.h
+++ b/src/paimon/fs/local/local_file_system.h
@@ -69,6 +69,7 @@ class LocalFileSystem : public FileSystem {
 class LocalInputStream : public InputStream {
  public:
     static Result<std::unique_ptr<LocalInputStream>> Create(LocalFile& file);
+    ~LocalInputStream() override;
 
     Status Seek(int64_t offset, SeekOrigin origin) override;
     Result<int64_t> GetPos() const override;
@@ -93,6 +94,7 @@ class LocalOutputStream : public OutputStream {
  public:
     static Result<std::unique_ptr<LocalOutputStream>> Create(LocalFile& file,
                                                              bool exclusive = false);
+    ~LocalOutputStream() override;
 
     Result<int64_t> GetPos() const override;
     Result<int32_t> Write(const char* buffer, uint32_t size) override;
-- 
2.43.0


From ba1499f4a71b168171542cab9e9fb02f36eb35fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:55:32 +0000
Subject: [PATCH 37/37] fix: let every converting thread finish when a merge
 reader is closed

Closing takes the results out of the queue once and then waits for the
threads. With more than three threads, each of them may still put a
result into a queue with room for three. The last one waited forever.
---
 src/paimon/core/io/async_key_value_producer_and_consumer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/paimon/core/io/async_key_value_producer_and_consumer.cpp b/src/paimon/core/io/async_key_value_producer_and_consumer.cpp
index f2bce55..4193b68 100644
--- a/src/paimon/core/io/async_key_value_producer_and_consumer.cpp
+++ b/src/paimon/core/io/async_key_value_producer_and_consumer.cpp
@@ -18,6 +18,7 @@
 
 #include <unistd.h>
 
+#include <algorithm>
 #include <chrono>
 #include <type_traits>
 
@@ -40,7 +41,8 @@ AsyncKeyValueProducerAndConsumer<T, R>::AsyncKeyValueProducerAndConsumer(
       sort_merge_reader_(std::move(sort_merge_reader)),
       create_consumer_(create_consumer) {
     kv_queue_.set_capacity(batch_size);
-    result_queue_.set_capacity(RESULT_BATCH_COUNT);
+    // CleanUp() empties the queue once, each consumer may push one more result after that
+    result_queue_.set_capacity(std::max(RESULT_BATCH_COUNT, consumer_thread_num));
 }
 
 template <typename T, typename R>
-- 
2.43.0

