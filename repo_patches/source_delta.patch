From 3e2b7f704de4c84a8eae4d7224d2c6e00dfef417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 01/29] fix: bounds-check dereferencing of const_bounded_buf_t
 (truncated packed data was read past its end)

---
 src/dbzero/core/serialization/bounded_buf_t.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/serialization/bounded_buf_t.hpp b/src/dbzero/core/serialization/bounded_buf_t.hpp
index 041ee05..4dcec1d 100644
--- a/src/dbzero/core/serialization/bounded_buf_t.hpp
+++ b/src/dbzero/core/serialization/bounded_buf_t.hpp
@@ -36,7 +36,12 @@ namespace db0
 			return begin;
 		}
 
-		inline const std::byte &operator*() const {
+		inline const std::byte &operator*() const
+		{
+			// must not access the byte past the end of the buffer
+			if (begin >= end) {
+				m_throw_func();
+			}
 			return *get();
 		}
 
-- 
2.43.0


From c2408a14bff6b921f4735fba8770af6ef60c6bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:09 +0000
Subject: [PATCH 02/29] fix: compare aligned sizes when pulling a blank from
 the aligned index (CRDT_Allocator)

---
 src/dbzero/core/crdt/CRDT_Allocator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/crdt/CRDT_Allocator.hpp b/src/dbzero/core/crdt/CRDT_Allocator.hpp
index 1112982..5b424ce 100644
--- a/src/dbzero/core/crdt/CRDT_Allocator.hpp
+++ b/src/dbzero/core/crdt/CRDT_Allocator.hpp
@@ -648,7 +648,9 @@ DB0_PACKED_END
             assert(!it.is_end());
             ++it;
             while (!it.is_end()) {
-                if ((*it).m_size >= min_size && inBounds(index, *it, min_size, cache)) {
+                // as with the initial lookup, for the aligned index only the aligned size counts
+                auto available = isAlignedIndex(index) ? (*it).getAlignedSize(m_mask, m_page_size) : (*it).m_size;
+                if (available >= min_size && inBounds(index, *it, min_size, cache)) {
                     break;
                 }
                 ++it;
-- 
2.43.0


From 44b6aefa3d19ec530bbc3ab64eda0820c8d44139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:09 +0000
Subject: [PATCH 03/29] fix: reset the span of a cleared BitsetAllocator

---
 src/dbzero/core/memory/BitsetAllocator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dbzero/core/memory/BitsetAllocator.hpp b/src/dbzero/core/memory/BitsetAllocator.hpp
index 47292f0..e38e288 100644
--- a/src/dbzero/core/memory/BitsetAllocator.hpp
+++ b/src/dbzero/core/memory/BitsetAllocator.hpp
@@ -171,6 +171,7 @@ namespace db0
 
     template <typename BitSetT> void BitsetAllocator<BitSetT>::clear() {
         m_bitset.modify().reset();
+        m_span = 0;
     }
 
     template <typename BitSetT> std::size_t BitsetAllocator<BitSetT>::calculateSpan() const {
-- 
2.43.0


From 98b80e4f6a27c30d56c5f56593813237361d0d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:09 +0000
Subject: [PATCH 04/29] fix: o_fixed_bitset read one word past its end when the
 size is a multiple of 32

---
 src/dbzero/core/collections/bitset/FixedBitset.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/core/collections/bitset/FixedBitset.hpp b/src/dbzero/core/collections/bitset/FixedBitset.hpp
index 0e8c5d6..7c2d0a7 100644
--- a/src/dbzero/core/collections/bitset/FixedBitset.hpp
+++ b/src/dbzero/core/collections/bitset/FixedBitset.hpp
@@ -104,7 +104,8 @@ DB0_PACKED_END
                 return i;
             }
             mask <<= 1;
-            if (mask == 0) {
+            // do not read past the last word
+            if (mask == 0 && i + 1 < BitN) {
                 mask = 1;
                 data = m_data[(i + 1) >> 5];
             }
@@ -123,7 +124,8 @@ DB0_PACKED_END
                 ++result;
             }
             mask <<= 1;
-            if (mask == 0) {
+            // do not read past the last word
+            if (mask == 0 && i + 1 < BitN) {
                 mask = 1;
                 data = m_data[(i + 1) >> 5];
             }
-- 
2.43.0


From e5865b6312b00a8c3bd2a05bedc5d105d9ec061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 05/29] fix: looking up a key that precedes all items of a
 compressed lookup tree skipped to the last node

---
 .../core/collections/SGB_Tree/SGB_CompressedLookupTree.hpp   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/core/collections/SGB_Tree/SGB_CompressedLookupTree.hpp b/src/dbzero/core/collections/SGB_Tree/SGB_CompressedLookupTree.hpp
index 8819a17..7bcb954 100644
--- a/src/dbzero/core/collections/SGB_Tree/SGB_CompressedLookupTree.hpp
+++ b/src/dbzero/core/collections/SGB_Tree/SGB_CompressedLookupTree.hpp
@@ -352,8 +352,9 @@ DB0_PACKED_END
 
             auto node = base_t::lower_equal_bound(key);
             if (node == base_t::end()) {
-                // take the last node
-                --node;                
+                // the key precedes all items, which makes the very first item the result
+                node = base_t::begin();
+                return node->header().uncompress(*node->find_min());
             }
             
             // node will be sorted if needed (only if opened as READ/WRITE)
-- 
2.43.0


From d7d8032e64baa4963d32880fc02cecdbddf4deec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 06/29] fix: SparseIndexQuery::lessThan counted differences
 preceding the full page

---
 src/dbzero/core/storage/SparseIndexQuery.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/storage/SparseIndexQuery.cpp b/src/dbzero/core/storage/SparseIndexQuery.cpp
index 132eabe..cddffdd 100644
--- a/src/dbzero/core/storage/SparseIndexQuery.cpp
+++ b/src/dbzero/core/storage/SparseIndexQuery.cpp
@@ -97,7 +97,8 @@ namespace db0
         }
         
         typename DI_Item::ConstIterator diff_it;
-        StateNumType last_state_num = 0;
+        // differences not after the full-DP are not part of the result
+        StateNumType last_state_num = m_full_dp.m_state_num;
         return lessThanFrom(size, diff_dp, diff_it, last_state_num);
     }
     
-- 
2.43.0


From 4a525275fe715fa9f11b2c7a849e79093640ab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 07/29] fix: size of a forced difference range taken from the
 wrong range in a sub-range view

---
 src/dbzero/core/memory/diff_utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/memory/diff_utils.cpp b/src/dbzero/core/memory/diff_utils.cpp
index 27aa9d6..cd03879 100644
--- a/src/dbzero/core/memory/diff_utils.cpp
+++ b/src/dbzero/core/memory/diff_utils.cpp
@@ -161,7 +161,8 @@ namespace db0
     {
         if (m_diff_ranges) {
             assert(index < m_size);
-            return (*this)[m_offset + index].second - (*this)[m_offset + index].first;
+            auto range = (*this)[index];
+            return range.second - range.first;
         }
         return 0;
     }
-- 
2.43.0


From 30e9ced2c5f0000baf4ddf616e23df529f5c1150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 08/29] contracts: loop invariant hooks in the page difference
 computation (DB0_CONTRACTS)

---
 src/dbzero/core/memory/diff_utils.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/dbzero/core/memory/diff_utils.cpp b/src/dbzero/core/memory/diff_utils.cpp
index cd03879..85ba489 100644
--- a/src/dbzero/core/memory/diff_utils.cpp
+++ b/src/dbzero/core/memory/diff_utils.cpp
@@ -204,12 +204,18 @@ namespace db0
         }
 
         for (;;) {
+#ifdef DB0_CONTRACTS
+            DB0_INVARIANT(getDiffs_pair_runs)
+#endif
             // total number of allowed diff areas exceeded
             if (result.size() >= *max_size) {
                 return false;
             }
             std::uint16_t diff_len = 0;
             while (it_1 != end) {
+#ifdef DB0_CONTRACTS
+                DB0_INVARIANT(getDiffs_pair_diff)
+#endif
                 if (it_1 == diff_start) {
                     assert(diff_ranges);
                     auto skip = diff_ranges.sizeOf(diff_index);
@@ -246,6 +252,9 @@ namespace db0
             }
             std::uint16_t sim_len = 0;
             for (; it_1 != end && *it_1 == *it_2; ++it_1, ++it_2) {
+#ifdef DB0_CONTRACTS
+                DB0_INVARIANT(getDiffs_pair_same)
+#endif
                 if (it_1 == diff_start) {
                     break;
                 }
@@ -294,6 +303,9 @@ namespace db0
         }
 
         for (;;) {
+#ifdef DB0_CONTRACTS
+            DB0_INVARIANT(getDiffs_zero_runs)
+#endif
             // total number of allowed diff areas exceeded
             if (result.size() >= *max_size) {
                 return false;
@@ -301,6 +313,9 @@ namespace db0
             std::uint16_t diff_len = 0;
             // identify non-zero bytes or forced-diff ranges
             while (it != end) {
+#ifdef DB0_CONTRACTS
+                DB0_INVARIANT(getDiffs_zero_diff)
+#endif
                 if (it == diff_start) {
                     assert(diff_ranges);
                     auto skip = diff_ranges.sizeOf(diff_index);
@@ -333,6 +348,9 @@ namespace db0
             }
             std::uint16_t sim_len = 0;
             for (; it != end && !*it; ++it) {
+#ifdef DB0_CONTRACTS
+                DB0_INVARIANT(getDiffs_zero_same)
+#endif
                 if (it == diff_start) {
                     break;
                 }
-- 
2.43.0


From c10a8c06fd71d736bbb2a336cebc92ff1e3cb3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 09/29] fix: moving the page writer past several pages from a
 partially filled block lost its position (pages overwritten when copying)

---
 src/dbzero/core/storage/Page_IO.cpp | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/dbzero/core/storage/Page_IO.cpp b/src/dbzero/core/storage/Page_IO.cpp
index e9f533e..335b06a 100644
--- a/src/dbzero/core/storage/Page_IO.cpp
+++ b/src/dbzero/core/storage/Page_IO.cpp
@@ -283,29 +283,19 @@ namespace db0
             THROWF(db0::InternalException) << "Page_IO::moveBy: step access not initialized";
         }
 
-        // move by the end of the current block
-        auto count = std::min(page_count, m_block_capacity - m_page_count);
-        auto new_block_num = *m_block_num + (page_count - count) / m_block_capacity + 1;
-        if (new_block_num > m_step_size) {
-            THROWF(db0::InternalException) << "Page_IO::moveBy: attempt to move beyond the current step";
-        }
-        // positioned at the end of the step
-        if (new_block_num == m_step_size) {
-            --new_block_num;
-        }
-        
-        auto page_diff = count + (new_block_num - *m_block_num - 1) * m_block_capacity;
-        page_count -= page_diff;
-        if (page_count > m_block_capacity) {
+        // the end position relative to the current block, a block is left only when there's a page to be stored past its end
+        auto end_page = std::uint64_t(m_page_count) + page_count;
+        auto block_diff = end_page > 0 ? (end_page - 1) / m_block_capacity : 0;
+        if (*m_block_num + block_diff >= m_step_size) {
             THROWF(db0::InternalException) << "Page_IO::moveBy: attempt to move beyond the current step";
         }
 
         // set new position variables (might be end of the block / step)
-        m_first_page_num += page_diff;
-        m_address += page_diff * m_page_size;
+        m_first_page_num += block_diff * m_block_capacity;
+        m_address += block_diff * m_block_size;
         assert(m_address == m_header_size + m_first_page_num * m_page_size);
-        m_block_num = new_block_num;
-        m_page_count = page_count;
+        m_block_num = static_cast<std::uint32_t>(*m_block_num + block_diff);
+        m_page_count = static_cast<std::uint32_t>(end_page - block_diff * m_block_capacity);
     }
     
     std::uint32_t Page_IO::getCurrentStepRemainingPages() const
-- 
2.43.0


From 098bac00cf7baa29dcb8126248a63ccfd407176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 10/29] fix: space reserved for a step of 4 GB or more was
 computed in 32 bits (Page_IO::tail)

---
 src/dbzero/core/storage/Page_IO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbzero/core/storage/Page_IO.cpp b/src/dbzero/core/storage/Page_IO.cpp
index 335b06a..921ab44 100644
--- a/src/dbzero/core/storage/Page_IO.cpp
+++ b/src/dbzero/core/storage/Page_IO.cpp
@@ -124,7 +124,7 @@ namespace db0
         assert(m_access_type == AccessType::READ_WRITE);
         if (m_block_num) {
             // reserve space up to end of the step
-            return m_address + (m_step_size - *m_block_num) * m_block_size;
+            return m_address + std::uint64_t(m_step_size - *m_block_num) * m_block_size;
         } else {
             // step not known, return end of the current block
             return m_address + m_block_size;
-- 
2.43.0


From 2b98912b5348cb87319218978056eb5a8a72958a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 11/29] fix: the block already assigned past the end of a
 stream was not reserved (could be taken by another stream after reopening)

---
 src/dbzero/core/storage/BlockIOStream.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/storage/BlockIOStream.cpp b/src/dbzero/core/storage/BlockIOStream.cpp
index 37a2624..8e2294a 100644
--- a/src/dbzero/core/storage/BlockIOStream.cpp
+++ b/src/dbzero/core/storage/BlockIOStream.cpp
@@ -424,7 +424,12 @@ namespace db0
             assert(false);
             THROWF(db0::InternalException) << "BlockIOStream::tail: Failed (must be EOS)";
         }
-        return m_address + m_block_size;
+        auto result = m_address + m_block_size;
+        // the next block may be already assigned (e.g. if the end-of-stream mark did not fit into the current block)
+        if (m_block_header.hasNext()) {
+            result = std::max(result, m_block_header.m_next_block_address + m_block_size);
+        }
+        return result;
     }
     
     char *BlockIOStream::prepareChunk(std::size_t size, std::vector<char> &buffer) const
-- 
2.43.0


From 9535fac6d5b475ff09b7344ef2f8603e9ed4d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:19 +0000
Subject: [PATCH 12/29] fix: the page holding the rest of a page difference had
 no relative number of its own (lost when the file is copied)

---
 src/dbzero/core/storage/BDevStorage.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/storage/BDevStorage.cpp b/src/dbzero/core/storage/BDevStorage.cpp
index 6fc8835..8877e42 100644
--- a/src/dbzero/core/storage/BDevStorage.cpp
+++ b/src/dbzero/core/storage/BDevStorage.cpp
@@ -425,7 +425,12 @@ namespace db0
             if (!!m_ext_space) {
                 // NOTE: first page (of each step) must be registered with REL_Index if it's maintained
                 // assign a relative page number
-                page_io_id = m_ext_space.assignRelative(page_io_id, is_first_page);
+                auto storage_page_num = page_io_id;
+                page_io_id = m_ext_space.assignRelative(storage_page_num, is_first_page);
+                if (overflow) {
+                    // the diff continues on the next page (same step)
+                    m_ext_space.assignRelative(storage_page_num + 1, false);
+                }
             }
             m_diff_index.insert(page_num, state_num, page_io_id, overflow);
         } else {
-- 
2.43.0


From f544ed9792b88903fcb4b4dcc7dc56b6f1c7ea2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:59 +0000
Subject: [PATCH 13/29] fix: a page difference continued in a non-adjacent
 block of a copied file was read from the wrong page

---
 src/dbzero/core/storage/BDevStorage.cpp | 10 ++++++++--
 src/dbzero/core/storage/Diff_IO.cpp     | 18 +++++++++++-------
 src/dbzero/core/storage/Diff_IO.hpp     |  5 ++++-
 3 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/dbzero/core/storage/BDevStorage.cpp b/src/dbzero/core/storage/BDevStorage.cpp
index 8877e42..d20fe7d 100644
--- a/src/dbzero/core/storage/BDevStorage.cpp
+++ b/src/dbzero/core/storage/BDevStorage.cpp
@@ -329,12 +329,18 @@ namespace db0
             // apply changes from diff-DPs
             std::uint32_t diff_state_num;
             while (query.next(diff_state_num, page_io_id)) {
+                std::optional<std::uint64_t> next_page_io_id;
                 if (!!m_ext_space) {
                     // convert relative page number back to absolute
-                    page_io_id = m_ext_space.getAbsolute(page_io_id);
+                    auto rel_page_num = page_io_id;
+                    page_io_id = m_ext_space.getAbsolute(rel_page_num);
+                    // the following page may have been stored in a non-adjacent block (e.g. by copyTo)
+                    if ((page_io_id + 1) % (m_config.m_block_size / m_config.m_page_size) == 0) {
+                        next_page_io_id = m_ext_space.getAbsolute(rel_page_num + 1);
+                    }
                 }
                 // apply all diff-updates on top of the full-DP
-                m_page_io.applyFrom(page_io_id, read_buf, { page_num, diff_state_num });
+                m_page_io.applyFrom(page_io_id, read_buf, { page_num, diff_state_num }, next_page_io_id);
                 // collect chain-len statistics
                 if (chain_len) {
                     ++(*chain_len);
diff --git a/src/dbzero/core/storage/Diff_IO.cpp b/src/dbzero/core/storage/Diff_IO.cpp
index 644a8b1..c93243b 100644
--- a/src/dbzero/core/storage/Diff_IO.cpp
+++ b/src/dbzero/core/storage/Diff_IO.cpp
@@ -66,7 +66,8 @@ DB0_PACKED_END
     {
     public:
         // buffer is 2 pages long
-        DiffReader(Page_IO &, std::uint64_t page_num, std::byte *begin, std::byte *end);
+        DiffReader(Page_IO &, std::uint64_t page_num, std::byte *begin, std::byte *end,
+            std::optional<std::uint64_t> next_page_num = {});
         
         // appy diffs from a specific page / state number into a provided data buffer
         // if underflow occurs then next page needs to be fetched and apply repeated
@@ -79,7 +80,8 @@ DB0_PACKED_END
     private:
         Page_IO &m_page_io;
         const std::uint32_t m_page_size;
-        const std::uint64_t m_page_num;
+        // the page to continue with on underflow
+        const std::uint64_t m_next_page_num;
         std::byte * const m_begin;
         const std::byte *m_current;
         std::byte const *m_end;
@@ -167,10 +169,11 @@ DB0_PACKED_END
         return m_header.m_size == 0 && m_header.m_offset == 0;
     }
     
-    DiffReader::DiffReader(Page_IO &page_io, std::uint64_t page_num, std::byte *begin, std::byte *end)
+    DiffReader::DiffReader(Page_IO &page_io, std::uint64_t page_num, std::byte *begin, std::byte *end,
+        std::optional<std::uint64_t> next_page_num)
         : m_page_io(page_io)
         , m_page_size(page_io.getPageSize())
-        , m_page_num(page_num)
+        , m_next_page_num(next_page_num.value_or(page_num + 1))
         , m_begin(begin)
         , m_current(begin + m_page_size)
         , m_end(end)        
@@ -226,7 +229,7 @@ DB0_PACKED_END
         std::memcpy(m_begin + offset, m_current, size);
         m_current = m_begin + offset;
         // read the next page
-        m_page_io.read(m_page_num + 1, m_begin + m_page_size);
+        m_page_io.read(m_next_page_num, m_begin + m_page_size);
         // and merge neighboring parts of the diff block (note that header gets overwritten)
         std::memmove((void*)(m_current + o_diff_header::sizeOf()), m_current, size);
         m_current += o_diff_header::sizeOf();
@@ -297,11 +300,12 @@ DB0_PACKED_END
     }
     
     void Diff_IO::applyFrom(std::uint64_t page_num, void *buffer,
-        std::pair<std::uint64_t, std::uint32_t> page_and_state) const
+        std::pair<std::uint64_t, std::uint32_t> page_and_state, std::optional<std::uint64_t> next_page_num) const
     {
         // must lock because the read-buffer is shared
         std::unique_lock<std::mutex> lock(m_mx_read);
-        DiffReader reader((Page_IO&)*this, page_num, m_read_buf.data(), m_read_buf.data() + m_read_buf.size());
+        DiffReader reader((Page_IO&)*this, page_num, m_read_buf.data(), m_read_buf.data() + m_read_buf.size(),
+            next_page_num);
         for (;;) {
             bool underflow = false;
             if (reader.apply((std::byte*)buffer, page_and_state, underflow)) {
diff --git a/src/dbzero/core/storage/Diff_IO.hpp b/src/dbzero/core/storage/Diff_IO.hpp
index 6b47843..84f09a5 100644
--- a/src/dbzero/core/storage/Diff_IO.hpp
+++ b/src/dbzero/core/storage/Diff_IO.hpp
@@ -6,6 +6,7 @@
 #include "Page_IO.hpp"
 #include "diff_buffer.hpp"
 #include <memory>
+#include <optional>
 
 namespace db0
 
@@ -39,8 +40,10 @@ namespace db0
         // @param page_num the storage page number to read from
         // @param buffer the buffer to hold the resulting data page
         // @param page_and_state logical page and state numbers (possibly relative) to identify the diff block
+        // @param next_page_num the storage page number holding the continuation (page_num + 1 if not specified)
         // Exception raised if the diff block is not found
-        void applyFrom(std::uint64_t page_num, void *buffer, std::pair<std::uint64_t, std::uint32_t> page_and_state) const;
+        void applyFrom(std::uint64_t page_num, void *buffer, std::pair<std::uint64_t, std::uint32_t> page_and_state,
+            std::optional<std::uint64_t> next_page_num = {}) const;
         
         // Flush needs to be called before closing the stream
         // and after each transaction
-- 
2.43.0


From e937b16ecc0304a5dc15c423c04ab838869b1831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:25 +0000
Subject: [PATCH 14/29] fix: UniqueAddress::operator>= was a strict comparison

---
 src/dbzero/core/memory/Address.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbzero/core/memory/Address.hpp b/src/dbzero/core/memory/Address.hpp
index b80ce09..022459f 100644
--- a/src/dbzero/core/memory/Address.hpp
+++ b/src/dbzero/core/memory/Address.hpp
@@ -161,7 +161,7 @@ DB0_PACKED_BEGIN
         }
 
         inline bool operator>=(const UniqueAddress& other) const {
-            return m_value > other.m_value;
+            return m_value >= other.m_value;
         }
         
         // operator<<
-- 
2.43.0


From 31cf1d93c382b918283221d23e6add0d00a13ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:55 +0000
Subject: [PATCH 15/29] fix: text that is not the exact form of an object
 identifier was decoded to some identifier

---
 src/dbzero/object_model/value/ObjectId.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/object_model/value/ObjectId.cpp b/src/dbzero/object_model/value/ObjectId.cpp
index a9fafea..47a0b03 100644
--- a/src/dbzero/object_model/value/ObjectId.cpp
+++ b/src/dbzero/object_model/value/ObjectId.cpp
@@ -41,7 +41,14 @@ namespace db0::object_model
         if ((end - at) > 1) {
             return {};
         }
-        return { fixture_uuid, address, static_cast<db0::StorageClass>(storage_class) };
+        ObjectId result { fixture_uuid, address, static_cast<db0::StorageClass>(storage_class) };
+        // only accept the exact text form (no unknown trailing characters, stray bits or out of range values)
+        char text[maxEncodedSize() + 1];
+        result.toBase32(text);
+        if (strcmp(text, buf) != 0) {
+            return {};
+        }
+        return result;
     }
 
     ObjectId ObjectId::fromBase32(const char *buf)
-- 
2.43.0


From 3cc10c879bda908a06074c13399b796fcffd2e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:06 +0000
Subject: [PATCH 16/29] fix: a time with a time zone could not be stored and
 was decoded from the wrong fields; time zone was written past the end of the
 created object

---
 src/dbzero/bindings/python/types/DateTime.cpp | 33 +++++++++----------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/dbzero/bindings/python/types/DateTime.cpp b/src/dbzero/bindings/python/types/DateTime.cpp
index 9c18491..8259792 100644
--- a/src/dbzero/bindings/python/types/DateTime.cpp
+++ b/src/dbzero/bindings/python/types/DateTime.cpp
@@ -28,8 +28,8 @@ namespace db0::python
             throw std::runtime_error("tzinfo must have a utcoffset method.");
         }
 
-        // Call tzinfo.utcoffset(datetime_instance)
-        auto offset = Py_OWN(PyObject_CallMethod(tzinfo, "utcoffset", "O", datetime_instance));
+        // Call datetime_instance.utcoffset() (tzinfo.utcoffset does not accept time instances)
+        auto offset = Py_OWN(PyObject_CallMethod(datetime_instance, "utcoffset", nullptr));
         if (!offset) {            
             THROWF(db0::InputException) << "Failed to call utcoffset method.";
         }
@@ -47,6 +47,10 @@ namespace db0::python
 
     PyObject *get_tz_info(PyObject * py_datetime)
     {
+        // NOTE: the members of a time and of a datetime instance are located at different offsets
+        if (PyTime_Check(py_datetime)) {
+            return PyDateTime_TIME_GET_TZINFO(py_datetime);
+        }
         if (((PyDateTime_DateTime *)(py_datetime))->hastzinfo) {
             return ((PyDateTime_DateTime *)(py_datetime))->tzinfo;
         }
@@ -134,11 +138,6 @@ namespace db0::python
         auto tz_days = get_bytes(datetime, 7, 1);
         auto tz_hours = get_bytes(datetime, 0, 7);
         tz_hours= tz_hours & 0x3F;
-        auto result = Py_OWN(PyDateTime_FromDateAndTime(year, month, day, hour, minute, second, miliseconds*1000));
-        if (!result) {
-            return nullptr;
-        }
-
         if (tz_days == 1){
             tz_days = -tz_days;
         }
@@ -151,9 +150,9 @@ namespace db0::python
             return nullptr;
         }
 
-        ((PyDateTime_DateTime *)(result.get()))->hastzinfo = 1;
-        ((PyDateTime_DateTime *)(result.get()))->tzinfo = tzinfo.steal();
-        return result.steal();
+        // NOTE: time-zone must be passed on creation (objects without it have no space for the member)
+        return PyDateTimeAPI->DateTime_FromDateAndTime(
+            year, month, day, hour, minute, second, miliseconds*1000, *tzinfo, PyDateTimeAPI->DateTimeType);
     }
 
     // DATE
@@ -239,14 +238,13 @@ namespace db0::python
     PyObject *uint64ToPyTimeWithTz(std::uint64_t time)
     {
         init_datetime();
-        auto hour = get_bytes(time, 0, 5);
-        auto minute = get_bytes(time, 5, 6);
-        auto second = get_bytes(time, 11, 6);
-        auto microseconds = get_bytes(time, 17, 20);
+        auto hour = get_bytes(time, 32, 5);
+        auto minute = get_bytes(time, 26, 6);
+        auto second = get_bytes(time, 20, 6);
+        auto microseconds = get_bytes(time, 0, 20);
         auto tz_days = get_bytes(time, 42, 1);
         auto tz_hours = get_bytes(time, 43, 7);
         tz_hours= tz_hours & 0x3F;
-        auto result = Py_OWN(PyTime_FromTime(hour, minute, second, microseconds));
         if (tz_days == 1){
             tz_days = -tz_days;
         }
@@ -258,9 +256,8 @@ namespace db0::python
         if (!tzinfo) {
             return nullptr;
         }
-        ((PyDateTime_DateTime *)(result.get()))->hastzinfo = 1;
-        ((PyDateTime_DateTime *)(result.get()))->tzinfo = tzinfo.steal();
-        return result.steal();
+        // NOTE: time-zone must be passed on creation (objects without it have no space for the member)
+        return PyDateTimeAPI->Time_FromTime(hour, minute, second, microseconds, *tzinfo, PyDateTimeAPI->TimeType);
     }
     
 }
\ No newline at end of file
-- 
2.43.0


From 8029d06093e6dee7594f573520b0f5de225bc006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:06 +0000
Subject: [PATCH 17/29] fix: decimals with a positive exponent were stored with
 a negative one, NaN and infinity were not rejected

---
 .../bindings/python/types/PyDecimal.cpp       | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/bindings/python/types/PyDecimal.cpp b/src/dbzero/bindings/python/types/PyDecimal.cpp
index 22c2ad3..f1696fd 100644
--- a/src/dbzero/bindings/python/types/PyDecimal.cpp
+++ b/src/dbzero/bindings/python/types/PyDecimal.cpp
@@ -5,6 +5,7 @@
 #include <dbzero/bindings/python/types/ByteUtils.hpp>
 #include <dbzero/bindings/python/shared_py_object.hpp>
 #include <dbzero/bindings/python/PySafeAPI.hpp>
+#include <algorithm>
 
 namespace db0::python
 
@@ -92,7 +93,15 @@ namespace db0::python
             THROWF(db0::InputException) << "as_tuple failed" << THROWF_END;
         }
         
-        auto exponent = abs(PyLong_AsLongLong(PyTuple_GetItem(*as_tuple, 2)));
+        auto exponent = PyLong_AsLongLong(PyTuple_GetItem(*as_tuple, 2));
+        if (PyErr_Occurred()) {
+            // NaN or infinity
+            PyErr_Clear();
+            THROWF(db0::InputException) << "Decimal out of range." << THROWF_END;
+        }
+        // the exponent of the value, only negative exponents can be stored
+        auto scale = std::max(exponent, 0LL);
+        exponent = -std::min(exponent, 0LL);
         if (exponent > 63) {
             THROWF(db0::InputException) << "Decimal out of range." << THROWF_END;            
         }
@@ -109,6 +118,14 @@ namespace db0::python
         }
         
         std::uint64_t integer_value = decimal_tuple_to_uint64(number_tuple_object, 17);
+        if (integer_value != 0 && scale > 0) {
+            if (number_lenght + scale > 17) {
+                THROWF(db0::InputException) << "Decimal out of range." << THROWF_END;
+            }
+            while (scale-- > 0) {
+                integer_value *= 10;
+            }
+        }
         
         std::uint64_t decimal = 0;
         set_bytes(decimal, 0, 57, integer_value);
-- 
2.43.0


From faa4cca9bc44e956a10d25a0321097938567259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:49 +0000
Subject: [PATCH 18/29] fix: block streams: recover from an incomplete block
 when appending, resume at the begin of an incomplete chunk, follow a stream
 through partial flushes

---
 src/dbzero/core/storage/BlockIOStream.cpp | 70 ++++++++++++-----------
 src/dbzero/core/storage/BlockIOStream.hpp |  5 +-
 2 files changed, 41 insertions(+), 34 deletions(-)

diff --git a/src/dbzero/core/storage/BlockIOStream.cpp b/src/dbzero/core/storage/BlockIOStream.cpp
index 8e2294a..74e0825 100644
--- a/src/dbzero/core/storage/BlockIOStream.cpp
+++ b/src/dbzero/core/storage/BlockIOStream.cpp
@@ -95,10 +95,8 @@ namespace db0
     {
         assert(!m_modified || write);
         // take next block from end of file
-        bool create_next_block = false;
         if (write && !m_block_header.hasNext()) {
             m_block_header.setNext(nextAddress());
-            create_next_block = true;
             assert(m_access_type == AccessType::READ_WRITE);
             m_modified = true;
         }
@@ -111,26 +109,19 @@ namespace db0
             return false;
         }
         
-        // check if the next block can be read completely
         auto next_block_address = m_block_header.m_next_block_address;
-        bool block_in_range = (m_file.size() >= next_block_address + m_block_size);
-        if (!write && !block_in_range) {
-            return false;
-        }
-
-        if (create_next_block || !block_in_range) {
+        if (write) {
+            assert(m_access_type == AccessType::READ_WRITE);
+            // create a new block / overwrite whatever follows the end of the stream (an incomplete or obsolete block)
             m_address = next_block_address;
             m_block_pos = m_block_begin;
-
-            assert(m_access_type == AccessType::READ_WRITE);
-            // create a new block / overwrite incomplete block
             memset(m_block_begin, 0, m_buffer.size());
             m_modified = true;
             m_eos = true;
         } else {
             // read full block only
-            // note that block gets rejected if checksum is not correct        
-            if (!readBlock(next_block_address, m_block_begin)) {
+            // note that block gets rejected if checksum is not correct
+            if (m_file.size() < next_block_address + m_block_size || !readBlock(next_block_address, m_block_begin)) {
                 return false;
             }
             
@@ -238,12 +229,18 @@ namespace db0
         if (expected_size && chunk_header.m_chunk_size != expected_size) {
             THROWF(db0::InternalException) << "BlockIOStream::readChunk: chunk size mismatch";
         }
+        auto pos = getStreamPos();
         skip(chunk_header.sizeOf());
-        assert(chunk_header.isValid());
         if (buffer.size() < chunk_header.m_chunk_size) {
             buffer.resize(chunk_header.m_chunk_size);
         }
         if (!read(buffer.data(), chunk_header.m_chunk_size)) {
+            // incomplete chunk (not flushed yet or process crashed when flushing), stay at its begin
+            rewind(pos);
+            if (m_access_type == AccessType::READ_WRITE) {
+                // the incomplete chunk will be overwritten
+                memset(m_block_pos, 0, m_block_end - m_block_pos);
+            }
             m_eos = true;
             return 0;
         }
@@ -353,29 +350,36 @@ namespace db0
         m_file.refresh();
         if (m_address + m_block_size <= m_file.size()) {
             std::vector<char> buffer(m_block_size);
-
             // read full block
-            if (readBlock(m_address, buffer.data())) {                
-                std::uint64_t *p1 = reinterpret_cast<std::uint64_t *>(buffer.data());
-                std::uint64_t *p1_end = reinterpret_cast<std::uint64_t *>(buffer.data() + buffer.size());
-                std::uint64_t *p2 = reinterpret_cast<std::uint64_t *>(m_block_begin);
-
-                // compare block contents
-                for (;p1 != p1_end; ++p1, ++p2) {
-                    if (*p1 != *p2) {
-                        memcpy(m_block_begin, buffer.data(), buffer.size());
-                        m_eos = false;
-                        // contents change detected
-                        return true;
-                    }
-                }            
+            if (readBlock(m_address, buffer.data())) {
+                memcpy(m_block_begin, buffer.data(), buffer.size());
             }
         }
-
-        // no change, no new contents to read
-        return false;
+        
+        // new contents are only available if the next chunk can be read completely
+        o_block_io_chunk_header chunk_header;
+        if (peek(&chunk_header, o_block_io_chunk_header::sizeOf()) && chunk_header.isValid()) {
+            auto pos = getStreamPos();
+            bool is_complete = skip(o_block_io_chunk_header::sizeOf()) && skip(chunk_header.m_chunk_size);
+            rewind(pos);
+            m_eos = !is_complete;
+        }
+        
+        return !m_eos;
     }
 
+    void BlockIOStream::rewind(const std::pair<std::uint64_t, std::uint64_t> &stream_pos)
+    {
+        if (stream_pos.first != m_address) {
+            if (!readBlock(stream_pos.first, m_block_begin)) {
+                THROWF(db0::IOException) << "BlockIOStream unable to restore position in stream";
+            }
+            m_address = stream_pos.first;
+        }
+        m_block_num = stream_pos.second / m_block_size;
+        m_block_pos = m_block_begin + (stream_pos.second % m_block_size);
+    }
+    
     void BlockIOStream::flush(bool no_fsync)
     {
         // flush modified block to disk
diff --git a/src/dbzero/core/storage/BlockIOStream.hpp b/src/dbzero/core/storage/BlockIOStream.hpp
index ce2a275..99f513d 100644
--- a/src/dbzero/core/storage/BlockIOStream.hpp
+++ b/src/dbzero/core/storage/BlockIOStream.hpp
@@ -132,7 +132,7 @@ DB0_PACKED_END
          * Refresh method re-reads the tail block from disk.
          * It needs to be called to be able to retrieve file modifications done by other process/instance
          * Refresh is only permitted in read-only mode
-         * @return true if the tail block's contents changed
+         * @return true if there is a complete chunk to be read
         */
         bool refresh();
         
@@ -280,6 +280,9 @@ DB0_PACKED_END
         */
         bool skip(std::size_t size);
 
+        // Return to a position retrieved with getStreamPos
+        void rewind(const std::pair<std::uint64_t, std::uint64_t> &stream_pos);
+
         // Read data without moving the cursor
         bool peek(void *buffer, std::size_t size, std::uint64_t *address = nullptr);
 
-- 
2.43.0


From acabd8594833731634d607c228bf2ed889c36ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:49 +0000
Subject: [PATCH 19/29] fix: FlagSet::count returns the number of flags set

---
 src/dbzero/core/utils/FlagSet.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/core/utils/FlagSet.hpp b/src/dbzero/core/utils/FlagSet.hpp
index 6fcfa13..7cba95a 100644
--- a/src/dbzero/core/utils/FlagSet.hpp
+++ b/src/dbzero/core/utils/FlagSet.hpp
@@ -104,8 +104,8 @@ DB0_PACKED_BEGIN
         {
             store_t bits = m_flags;
             std::size_t total = 0;
-            for(; bits != 0; ++total){
-                bits >>= 1;
+            for(; bits != 0; bits >>= 1) {
+                total += (bits & 1);
             }
             return total;
         }
-- 
2.43.0


From e9e2b9d8cdb686587fb4ff076042e4366a214de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:56 +0000
Subject: [PATCH 20/29] hooks: loop invariants (DB0_CONTRACTS) in BlockIOStream
 and FixedBitset

---
 src/dbzero/core/collections/bitset/FixedBitset.hpp |  9 +++++++++
 src/dbzero/core/storage/BlockIOStream.cpp          | 12 ++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/dbzero/core/collections/bitset/FixedBitset.hpp b/src/dbzero/core/collections/bitset/FixedBitset.hpp
index 7c2d0a7..802b61f 100644
--- a/src/dbzero/core/collections/bitset/FixedBitset.hpp
+++ b/src/dbzero/core/collections/bitset/FixedBitset.hpp
@@ -100,6 +100,9 @@ DB0_PACKED_END
         std::uint32_t mask = 0x1;
         std::uint32_t data = m_data[0];
         for (unsigned int i = 0; i < BitN; ++i) {
+#ifdef DB0_CONTRACTS
+            DB0_INVARIANT(bitset_first)
+#endif
             if (((data & mask) != 0) == value) {
                 return i;
             }
@@ -120,6 +123,9 @@ DB0_PACKED_END
         std::uint32_t mask = 0x1;
         std::uint32_t data = m_data[0];
         for (unsigned int i = 0; i < BitN; ++i) {
+#ifdef DB0_CONTRACTS
+            DB0_INVARIANT(bitset_count)
+#endif
             if (((data & mask) != 0) == value) {
                 ++result;
             }
@@ -142,6 +148,9 @@ DB0_PACKED_END
         std::uint32_t mask = (BitN % 32) == 0 ? 0x80000000 : 1U << ((BitN % 32) - 1);
         std::uint32_t data = m_data[(BitN - 1) >> 5];
         for (int i = BitN - 1; i >= 0; --i) {
+#ifdef DB0_CONTRACTS
+            DB0_INVARIANT(bitset_last)
+#endif
             if (((data & mask) != 0) == value) {
                 return i;
             }
diff --git a/src/dbzero/core/storage/BlockIOStream.cpp b/src/dbzero/core/storage/BlockIOStream.cpp
index 74e0825..6087847 100644
--- a/src/dbzero/core/storage/BlockIOStream.cpp
+++ b/src/dbzero/core/storage/BlockIOStream.cpp
@@ -18,6 +18,9 @@ namespace db0
         const std::uint64_t *int_end = reinterpret_cast<const std::uint64_t *>(end);
         std::uint64_t checksum = 0;
         for (; int_begin != int_end; ++int_begin) {
+#ifdef DB0_CONTRACTS
+            DB0_INVARIANT(stream_checksum)
+#endif
             checksum ^= *int_begin;
         }
         return checksum;
@@ -193,6 +196,9 @@ namespace db0
         }
 
         while (size > 0) {
+#ifdef DB0_CONTRACTS
+            DB0_INVARIANT(stream_write)
+#endif
             if (m_block_pos == m_block_end) {
                 // finish block and create the next one
                 getNextBlock(true);
@@ -286,6 +292,9 @@ namespace db0
     {
         auto out = reinterpret_cast<char *>(buffer);
         while (size > 0) {
+#ifdef DB0_CONTRACTS
+            DB0_INVARIANT(stream_read)
+#endif
             if (m_block_pos == m_block_end) {
                 // finish block and create the next one
                 if (!getNextBlock(false)) {
@@ -313,6 +322,9 @@ namespace db0
     bool BlockIOStream::skip(std::size_t size)
     {
         while (size > 0) {
+#ifdef DB0_CONTRACTS
+            DB0_INVARIANT(stream_skip)
+#endif
             if (m_block_pos == m_block_end) {
                 // finish block and create the next one
                 if (!getNextBlock(false)) {
-- 
2.43.0


From d201cec19e3b58bd7ed6711859b51adecbfd1fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:56 +0000
Subject: [PATCH 21/29] hooks: loop cut points of page reads and writes, the
 index page stream and the copy (DB0_CONTRACTS only)

---
 src/dbzero/core/storage/BDevStorage.cpp   | 9 +++++++++
 src/dbzero/core/storage/DRAM_IOStream.cpp | 9 +++++++++
 src/dbzero/core/storage/copy_prefix.cpp   | 6 ++++++
 3 files changed, 24 insertions(+)

diff --git a/src/dbzero/core/storage/BDevStorage.cpp b/src/dbzero/core/storage/BDevStorage.cpp
index d20fe7d..76a848d 100644
--- a/src/dbzero/core/storage/BDevStorage.cpp
+++ b/src/dbzero/core/storage/BDevStorage.cpp
@@ -301,6 +301,9 @@ namespace db0
         std::byte *read_buf = reinterpret_cast<std::byte *>(buffer);
         // lookup sparse index and read physical pages
         for (auto page_num = begin_page; page_num != end_page; ++page_num, read_buf += m_config.m_page_size) {
+#ifdef DB0_CONTRACTS
+            DB0_INVARIANT(storage_read_page)
+#endif
             // query sparse index + diff index
             SparseIndexQuery query(m_sparse_index, m_diff_index, page_num, state_num);
             if (query.empty()) {
@@ -329,6 +332,9 @@ namespace db0
             // apply changes from diff-DPs
             std::uint32_t diff_state_num;
             while (query.next(diff_state_num, page_io_id)) {
+#ifdef DB0_CONTRACTS
+            DB0_INVARIANT(storage_read_diff)
+#endif
                 std::optional<std::uint64_t> next_page_io_id;
                 if (!!m_ext_space) {
                     // convert relative page number back to absolute
@@ -381,6 +387,9 @@ namespace db0
         std::unique_lock<std::shared_mutex> lock(m_mutex);
         // write as physical pages and register with the sparse index
         for (auto page_num = begin_page; page_num != end_page; ++page_num, write_buf += m_config.m_page_size) {
+#ifdef DB0_CONTRACTS
+            DB0_INVARIANT(storage_write_page)
+#endif
             // look up if page has already been added in current transaction
             auto item = m_sparse_index.lookup(page_num, state_num);
             if (item && item.m_state_num == state_num) {
diff --git a/src/dbzero/core/storage/DRAM_IOStream.cpp b/src/dbzero/core/storage/DRAM_IOStream.cpp
index 48e7065..5f69104 100644
--- a/src/dbzero/core/storage/DRAM_IOStream.cpp
+++ b/src/dbzero/core/storage/DRAM_IOStream.cpp
@@ -194,6 +194,9 @@ namespace db0
         std::unordered_set<std::uint64_t> last_changelog;
         if (dram_changelog_io.getLastChangeLogChunk()) {
             for (auto addr: *dram_changelog_io.getLastChangeLogChunk()) {
+#ifdef DB0_CONTRACTS
+                DB0_INVARIANT(dram_last_log)
+#endif
                 last_changelog.insert(addr);
             }
         }
@@ -202,6 +205,9 @@ namespace db0
         // otherwise the reader process might not be able to access the last transaction
         auto find_reusable = [&, this]() -> std::optional<std::uint64_t> {
             for (auto it = m_reusable_chunks.begin(); it != m_reusable_chunks.end(); ++it) {
+#ifdef DB0_CONTRACTS
+                DB0_INVARIANT(dram_find_reusable)
+#endif
                 if (last_changelog.find(*it) == last_changelog.end()) {
                     auto result = *it;
                     m_reusable_chunks.erase(it);
@@ -309,6 +315,9 @@ namespace db0
     {
         bool is_consistent = true;
         for (const auto &item: m_read_ahead_chunks) {
+#ifdef DB0_CONTRACTS
+            DB0_INVARIANT(dram_apply)
+#endif
             auto address = item.first;
             const auto &buffer = item.second;
             const auto &header = o_dram_chunk_header::__const_ref(buffer.data() + o_block_io_chunk_header::sizeOf());
diff --git a/src/dbzero/core/storage/copy_prefix.cpp b/src/dbzero/core/storage/copy_prefix.cpp
index 586058e..6a7107d 100644
--- a/src/dbzero/core/storage/copy_prefix.cpp
+++ b/src/dbzero/core/storage/copy_prefix.cpp
@@ -254,12 +254,18 @@ namespace db0
         std::vector<std::byte> buffer;
         std::uint64_t start_page_num = 0;
         while (auto page_count = reader.next(buffer, start_page_num)) {
+#ifdef DB0_CONTRACTS
+            DB0_INVARIANT(copy_run)
+#endif
             auto buf_ptr = buffer.data();
             if (!!src_ext_space) {
                 // translate to relative page number
                 start_page_num = src_ext_space.getRelative(start_page_num);
             }
             while (page_count > 0) {
+#ifdef DB0_CONTRACTS
+                DB0_INVARIANT(copy_step)
+#endif
                 // page number (absolute) in the output stream
                 auto storage_page_num = out.getNextPageNum().first;
                 auto count = std::min(page_count, out.getCurrentStepRemainingPages());
-- 
2.43.0


From 3b9d7f238ab10292d43e8d4f60372f815d4e2451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:49 +0000
Subject: [PATCH 22/29] fix: bulkErase emptying an index notifies only the
 elements that were erased

---
 src/dbzero/core/collections/b_index/mb_index.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/core/collections/b_index/mb_index.hpp b/src/dbzero/core/collections/b_index/mb_index.hpp
index fe323d4..1823ac5 100644
--- a/src/dbzero/core/collections/b_index/mb_index.hpp
+++ b/src/dbzero/core/collections/b_index/mb_index.hpp
@@ -302,11 +302,14 @@ namespace db0
                 if (key_count > 0) {
                     bindex::type type_after_erase = getIndexTypeAfterErase(key_count);
                     if (type_after_erase == bindex::type::empty) {
+                        // only the actually erased elements must be notified (max. 4 items)
+                        item_t data[4];
+                        std::size_t size = m_interface.copyAll(data);
                         // morph to empty_index (this will erase all elements)
                         morphToEmpty();
 						if (callback_ptr) {
-							for (auto it = begin; it != end; ++it) {
-								(*callback_ptr)(*it);
+							for (std::size_t i = 0; i < size; ++i) {
+								(*callback_ptr)(data[i]);
 							}
 						}
                     } else if (type_after_erase==bindex::type::itty) {
-- 
2.43.0


From d23633ae2a53615f129cedc3b91cf3f15892a17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:49 +0000
Subject: [PATCH 23/29] fix: the last of adding and removing a tag in one batch
 wins, whether or not the tag was assigned before

---
 .../core/collections/full_text/FT_BaseIndex.hpp    | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp b/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp
index 4faa82d..7231014 100644
--- a/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp
+++ b/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp
@@ -238,17 +238,15 @@ namespace db0
         private:
             void _addTag(ActiveValueT value, IndexKeyT tag)
             {
-                // try un-removing the tag first
-                if (!m_remove_set.remove(tag, value)) {
-                    m_add_set.append(tag, value);
-                }
+                // the most recent operation wins, and cancelling a pending remove is not enough
+                // since the value may not have the tag assigned at all (and vice versa)
+                m_remove_set.remove(tag, value);
+                m_add_set.append(tag, value);
             }
 
             void _removeTag(ActiveValueT value, IndexKeyT tag) {
-                // try un-adding the tag first
-                if (!m_add_set.remove(tag, value)) {
-                    m_remove_set.append(tag, value);
-                }
+                m_add_set.remove(tag, value);
+                m_remove_set.append(tag, value);
             }         
         };
 
-- 
2.43.0


From c81beec03cc7646d85ed545edfed93acfa4b24be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:49 +0000
Subject: [PATCH 24/29] fix: forward join of the and-not iterator joins forward
 and reports the result

---
 src/dbzero/core/collections/full_text/FT_ANDNOTIterator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbzero/core/collections/full_text/FT_ANDNOTIterator.cpp b/src/dbzero/core/collections/full_text/FT_ANDNOTIterator.cpp
index d865aa0..8eb3a9a 100644
--- a/src/dbzero/core/collections/full_text/FT_ANDNOTIterator.cpp
+++ b/src/dbzero/core/collections/full_text/FT_ANDNOTIterator.cpp
@@ -208,7 +208,7 @@ namespace db0
     {
         if (m_direction > 0) {
             auto &it = getBaseIterator();
-            if (!it.join(join_key), 1) {
+            if (!it.join(join_key, 1)) {
                 return false;
             }
             if(!inResult(it.getKey(), 1) && !next(1)) {
-- 
2.43.0


From e13d61dd6d29fcddef9a7cb4e8f33f84b03b4900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:47 +0000
Subject: [PATCH 25/29] fix: swapAndPop removed an element that had just been
 moved to a position to be erased

---
 src/dbzero/core/collections/vector/v_bvector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dbzero/core/collections/vector/v_bvector.hpp b/src/dbzero/core/collections/vector/v_bvector.hpp
index 9d3aaaa..a742a42 100644
--- a/src/dbzero/core/collections/vector/v_bvector.hpp
+++ b/src/dbzero/core/collections/vector/v_bvector.hpp
@@ -351,6 +351,8 @@ DB0_PACKED_END
                         // take element from end and place it position of the one to be deleted
                         auto element = this->pop_back();
                         this->setItem(item_num, element);
+                        // position already processed (holds a retained element now)
+                        values.erase(item_num);
                     }
                 }
             }
-- 
2.43.0


From de9c9f4ca7df393f9a9d7b2c384f88678a3277f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:47 +0000
Subject: [PATCH 26/29] fix: a tag's single-object list could be taken for
 another tag's list cached under an equal address

---
 src/dbzero/core/collections/full_text/InvertedIndex.hpp | 5 +++++
 src/dbzero/core/memory/VObjectCache.hpp                 | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/dbzero/core/collections/full_text/InvertedIndex.hpp b/src/dbzero/core/collections/full_text/InvertedIndex.hpp
index 4f982dc..b487463 100644
--- a/src/dbzero/core/collections/full_text/InvertedIndex.hpp
+++ b/src/dbzero/core/collections/full_text/InvertedIndex.hpp
@@ -29,6 +29,11 @@ namespace db0
         // use high 4-bits for index type
         auto index_type = static_cast<db0::bindex::type>(address.getOffset() >> 60);
         auto mb_addr = Address::fromOffset(address & 0x0FFFFFFFFFFFFFFF);
+        // NOTE: the "itty" index holds its only item in place of the address, therefore it must not be
+        // pulled through cache (the item might be equal to the address of some other cached instance)
+        if (index_type == db0::bindex::type::itty) {
+            return std::make_shared<db0::MorphingBIndex<KeyT> >(cache.getMemspace(), mb_addr, index_type);
+        }
         // NOTE: first address is for cache, the latter for MorphingBIndex
         // NOTE: MorphingBIndex does not provide detach functionality
         return cache.findOrCreate<db0::MorphingBIndex<KeyT> >(mb_addr, false, mb_addr, index_type);
diff --git a/src/dbzero/core/memory/VObjectCache.hpp b/src/dbzero/core/memory/VObjectCache.hpp
index 1da2804..5acc564 100644
--- a/src/dbzero/core/memory/VObjectCache.hpp
+++ b/src/dbzero/core/memory/VObjectCache.hpp
@@ -94,6 +94,10 @@ namespace db0
         
         FixedObjectList &getSharedObjectList() const;
 
+        inline Memspace &getMemspace() const {
+            return m_memspace;
+        }
+
         void beginAtomic();
         void endAtomic();
         void cancelAtomic();
-- 
2.43.0


From 93f2e20c718eadb4a6c5148103ea311c3bafccba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:24 +0000
Subject: [PATCH 27/29] fix: a single insert into an index block left full by a
 bulk insert exceeded the block's limit

---
 src/dbzero/core/collections/b_index/v_bindex.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/collections/b_index/v_bindex.hpp b/src/dbzero/core/collections/b_index/v_bindex.hpp
index be1c2a7..42ad517 100644
--- a/src/dbzero/core/collections/b_index/v_bindex.hpp
+++ b/src/dbzero/core/collections/b_index/v_bindex.hpp
@@ -315,7 +315,8 @@ namespace db0
             // actual insert
             {
                 bool addr_changed = false;
-                data_buf.insert(item, addr_changed, this->m_max_size);
+                // a block left full by a bulk insert is let grow by one (and is split below)
+                data_buf.insert(item, addr_changed, std::max<std::uint32_t>(this->m_max_size, data_buf->m_size + 1));
                 if (addr_changed) {
                     it_node.modify().m_data.ptr_b_data = data_buf.getAddress();
                 }
-- 
2.43.0


From 179a74bb124513d61263cdc30e9dbcd1d44b3b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:43 +0000
Subject: [PATCH 28/29] hooks: loop invariants for query nodes, sorted runs and
 the search tree (DB0_CONTRACTS only)

---
 .../collections/full_text/FT_ANDIterator.cpp  |  3 ++
 .../full_text/FT_ANDNOTIterator.cpp           | 12 +++++++
 .../collections/full_text/FT_ORXIterator.cpp  | 12 +++++++
 .../collections/full_text/IteratorGroup.cpp   |  3 ++
 .../collections/full_text/IteratorGroup.hpp   |  3 ++
 .../core/intrusive/detail/tree_algorithms.hpp | 33 +++++++++++++++++++
 src/dbzero/core/utils/SortedArray.hpp         |  6 ++++
 7 files changed, 72 insertions(+)

diff --git a/src/dbzero/core/collections/full_text/FT_ANDIterator.cpp b/src/dbzero/core/collections/full_text/FT_ANDIterator.cpp
index c7ebde0..643c67c 100644
--- a/src/dbzero/core/collections/full_text/FT_ANDIterator.cpp
+++ b/src/dbzero/core/collections/full_text/FT_ANDIterator.cpp
@@ -267,6 +267,9 @@ namespace db0
         assert(!(**it).isEnd());
         assert(m_join_key == (**it).getKey());
         for (;;) {
+#ifdef DB0_CONTRACTS
+            DB0_INVARIANT(and_join_all)
+#endif
             ++it;
             if (it == end) {
                 break;
diff --git a/src/dbzero/core/collections/full_text/FT_ANDNOTIterator.cpp b/src/dbzero/core/collections/full_text/FT_ANDNOTIterator.cpp
index 8eb3a9a..50479d3 100644
--- a/src/dbzero/core/collections/full_text/FT_ANDNOTIterator.cpp
+++ b/src/dbzero/core/collections/full_text/FT_ANDNOTIterator.cpp
@@ -72,6 +72,9 @@ namespace db0
     {
         if (direction > 0) {
             while(!m_subtrahends_heap.empty()) {
+#ifdef DB0_CONTRACTS
+                DB0_INVARIANT(andnot_in_result)
+#endif
                 HeapItem &item = m_subtrahends_heap.front();
                 if(item.key == key) {
                     return false;
@@ -90,6 +93,9 @@ namespace db0
         } else {
             assert(m_direction < 0);
             while(!m_subtrahends_heap.empty()) {
+#ifdef DB0_CONTRACTS
+                DB0_INVARIANT(andnot_in_result)
+#endif
                 HeapItem &item = m_subtrahends_heap.front();
                 if(item.key == key) {
                     return false;
@@ -120,6 +126,9 @@ namespace db0
             auto &it = getBaseIterator();
             bool is_not_end;
             do {
+#ifdef DB0_CONTRACTS
+                DB0_INVARIANT(andnot_next)
+#endif
                 ++it;
                 is_not_end = !it.isEnd();
             } while(is_not_end && !inResult(it.getKey(), 1));
@@ -129,6 +138,9 @@ namespace db0
             auto &it = getBaseIterator();
             bool is_not_end;
             do {
+#ifdef DB0_CONTRACTS
+                DB0_INVARIANT(andnot_next)
+#endif
                 --it;
                 is_not_end = !it.isEnd();
             } while(is_not_end && !inResult(it.getKey(), -1));
diff --git a/src/dbzero/core/collections/full_text/FT_ORXIterator.cpp b/src/dbzero/core/collections/full_text/FT_ORXIterator.cpp
index 92bce2f..007993d 100644
--- a/src/dbzero/core/collections/full_text/FT_ORXIterator.cpp
+++ b/src/dbzero/core/collections/full_text/FT_ORXIterator.cpp
@@ -55,6 +55,9 @@ namespace db0
 			_next();
 			// pop all equal values from heap (exclusive OR)
 			while (!m_forward_heap.empty() && _key == m_forward_heap.front().m_key) {
+#ifdef DB0_CONTRACTS
+				DB0_INVARIANT(or_skip)
+#endif
 				_next();
 			}
 		} else {
@@ -102,6 +105,9 @@ namespace db0
 			prev();
 			// pop all equal values from heap (excluding OR)
 			while (!m_back_heap.empty() && (_key == m_back_heap.front().m_key)) {
+#ifdef DB0_CONTRACTS
+				DB0_INVARIANT(or_skip)
+#endif
 				prev();
 			}
 		} else {
@@ -143,6 +149,9 @@ namespace db0
             assert(!m_forward_heap.empty());
             // join all sub - iterators, then fix heap
             while (!m_forward_heap.empty() && (m_forward_heap.front().m_key < key)) {
+#ifdef DB0_CONTRACTS
+                DB0_INVARIANT(or_join)
+#endif
                 if (m_forward_heap.front().join(key, 1)) {
                     m_forward_heap.downfix();
                 } else {
@@ -163,6 +172,9 @@ namespace db0
                 initHeap(false);
             }
             while (!m_back_heap.empty() && (m_back_heap.front().m_key > key)) {
+#ifdef DB0_CONTRACTS
+                DB0_INVARIANT(or_join)
+#endif
                 if (m_back_heap.front().join(key, -1)) {
                     m_back_heap.downfix();
                 } else {                    
diff --git a/src/dbzero/core/collections/full_text/IteratorGroup.cpp b/src/dbzero/core/collections/full_text/IteratorGroup.cpp
index 58e558c..f39e71d 100644
--- a/src/dbzero/core/collections/full_text/IteratorGroup.cpp
+++ b/src/dbzero/core/collections/full_text/IteratorGroup.cpp
@@ -85,6 +85,9 @@ namespace db0
         KeyStorageT next_key;
         m_iterator->getKey(next_key);
         for (;;) {
+#ifdef DB0_CONTRACTS
+            DB0_INVARIANT(next_unique_key)
+#endif
             if (direction < 0) {
                 --(*m_iterator);
             } else {
diff --git a/src/dbzero/core/collections/full_text/IteratorGroup.hpp b/src/dbzero/core/collections/full_text/IteratorGroup.hpp
index 60a279b..2b511d8 100644
--- a/src/dbzero/core/collections/full_text/IteratorGroup.hpp
+++ b/src/dbzero/core/collections/full_text/IteratorGroup.hpp
@@ -1,6 +1,9 @@
 // SPDX-License-Identifier: LGPL-2.1-or-later
 // Copyright (c) 2025 DBZero Software sp. z o.o.
 
+#ifdef DB0_CONTRACTS
+#pragma once
+#endif
 #include "FT_Iterator.hpp"
 #include <list>
 #include <optional>
diff --git a/src/dbzero/core/intrusive/detail/tree_algorithms.hpp b/src/dbzero/core/intrusive/detail/tree_algorithms.hpp
index 7437067..2c2dc9a 100755
--- a/src/dbzero/core/intrusive/detail/tree_algorithms.hpp
+++ b/src/dbzero/core/intrusive/detail/tree_algorithms.hpp
@@ -479,6 +479,9 @@ class tree_algorithms
       for (node_ptr p_left = NodeTraits::get_left(p)
          ;!!p_left
          ;p_left = NodeTraits::get_left(p)){
+#ifdef DB0_CONTRACTS
+      DB0_INVARIANT(tree_minimum)
+#endif
          p = p_left;
       }
       return p;
@@ -495,6 +498,9 @@ class tree_algorithms
    {
       node_ptr p_right = NodeTraits::get_right(p);
 	   while (!!p_right) {
+#ifdef DB0_CONTRACTS
+      DB0_INVARIANT(tree_maximum)
+#endif
 		   p = p_right;
 		   p_right = NodeTraits::get_right(p);
       }
@@ -835,6 +841,9 @@ class tree_algorithms
       // start with root node
       node_ptr x = NodeTraits::get_parent(header);
       while (!!x) {
+#ifdef DB0_CONTRACTS
+      DB0_INVARIANT(tree_upper_equal_bound)
+#endif
          if (comp(key, x)) {
         	// potential result
             y = x;
@@ -875,6 +884,9 @@ class tree_algorithms
       node_ptr y = header;
       node_ptr x = NodeTraits::get_parent(header);
       while (!!x) {
+#ifdef DB0_CONTRACTS
+      DB0_INVARIANT(tree_lower_bound)
+#endif
          if (comp(x, key)) {
             x = NodeTraits::get_right(x);
          } else {
@@ -912,6 +924,9 @@ class tree_algorithms
       node_ptr y = header;
       node_ptr x = NodeTraits::get_parent(header);
       while (!!x) {
+#ifdef DB0_CONTRACTS
+      DB0_INVARIANT(tree_lower_equal_bound)
+#endif
          if (comp(x, key)) {
             y = x;
             x = NodeTraits::get_right(x);
@@ -962,12 +977,18 @@ class tree_algorithms
 	   assert (!it.empty());
 	   node_ptr x = *it;
 	   while (!it.empty() && comp(x,key)) {
+#ifdef DB0_CONTRACTS
+      DB0_INVARIANT(tree_join_fwd_up)
+#endif
 			it.pop_back();
 			if (!it.empty()) {
 				x = *it;
 			}
 	   }
 	   while (!!x) {
+#ifdef DB0_CONTRACTS
+      DB0_INVARIANT(tree_join_fwd_down)
+#endif
 		   if (comp(x, key)) {
 			   x = NodeTraits::get_right(x);
 		   }
@@ -1018,12 +1039,18 @@ class tree_algorithms
 	   assert (!it.empty());
 	   node_ptr x = *it;
 	   while (!it.empty() && comp(key,x)) {
+#ifdef DB0_CONTRACTS
+      DB0_INVARIANT(tree_join_back_up)
+#endif
 			it.pop_back();
 			if (!it.empty()) {
 				x = *it;
 			}
 	   }
 	   while (!!x) {
+#ifdef DB0_CONTRACTS
+      DB0_INVARIANT(tree_join_back_down)
+#endif
 		   if (comp(key,x)) {
 			   x = NodeTraits::get_left(x);
 		   }
@@ -1261,6 +1288,9 @@ class tree_algorithms
       node_ptr x(NodeTraits::get_parent(ld.y));
 
       while(!!x) {
+#ifdef DB0_CONTRACTS
+      DB0_INVARIANT(tree_link_upper)
+#endif
          ++depth;
          ld.y = x;
          x = comp(key, x) ? 
@@ -1280,6 +1310,9 @@ class tree_algorithms
       node_ptr x(NodeTraits::get_parent(y));
 
       while (!!x) {
+#ifdef DB0_CONTRACTS
+      DB0_INVARIANT(tree_insert_upper)
+#endif
          ++depth;
          y = x;
          x = comp(new_node, x) ? 
diff --git a/src/dbzero/core/utils/SortedArray.hpp b/src/dbzero/core/utils/SortedArray.hpp
index cb1888a..4305ad7 100644
--- a/src/dbzero/core/utils/SortedArray.hpp
+++ b/src/dbzero/core/utils/SortedArray.hpp
@@ -56,6 +56,9 @@ namespace db0
 				Iterator end = this->m_end;
 				std::size_t diff = (size_t)(end - it);
 				while (diff > 2) {
+#ifdef DB0_CONTRACTS
+					DB0_INVARIANT(sorted_join_fwd)
+#endif
 					Iterator c = it + (diff >> 1);
 					// "c" meets the join criteria
 					if (m_comp(key,*c)) {
@@ -85,6 +88,9 @@ namespace db0
 				Iterator begin = this->m_begin;
 				std::size_t diff = (std::size_t)(it - begin);
 				while (diff > 2) {
+#ifdef DB0_CONTRACTS
+					DB0_INVARIANT(sorted_join_back)
+#endif
 					Iterator c = begin + (diff >> 1);
 					// "c" meets the join criteria
 					if (m_comp(*c, key)) {
-- 
2.43.0


From ceca747b5a322629f5d6004086d221b92c732570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:32 +0000
Subject: [PATCH 29/29] hooks: loop invariants for the sorted vector and index
 insertion (DB0_CONTRACTS only)

---
 .../core/collections/b_index/v_bindex.hpp     |  3 ++
 .../collections/vector/v_sorted_vector.hpp    | 39 +++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/src/dbzero/core/collections/b_index/v_bindex.hpp b/src/dbzero/core/collections/b_index/v_bindex.hpp
index 42ad517..6547219 100644
--- a/src/dbzero/core/collections/b_index/v_bindex.hpp
+++ b/src/dbzero/core/collections/b_index/v_bindex.hpp
@@ -334,6 +334,9 @@ namespace db0
                 auto it_next = it_split;
                 ++it_next;
                 while (it_next!=data_buf->end() && !m_comp(*it_split, *it_next)) {
+#ifdef DB0_CONTRACTS
+                    DB0_INVARIANT(bindex_insert_split)
+#endif
                     ++it_split;
                     ++it_next;
                 }
diff --git a/src/dbzero/core/collections/vector/v_sorted_vector.hpp b/src/dbzero/core/collections/vector/v_sorted_vector.hpp
index 9515d0e..0681685 100644
--- a/src/dbzero/core/collections/vector/v_sorted_vector.hpp
+++ b/src/dbzero/core/collections/vector/v_sorted_vector.hpp
@@ -115,10 +115,16 @@ DB0_PACKED_BEGIN
                     }
                 } else {
                     while (count-- > 0) {
+#ifdef DB0_CONTRACTS
+                        DB0_INVARIANT(sv_pop_front_skip)
+#endif
                         ++it_src;
                     }
                 }
                 while (it_src!=it_end) {
+#ifdef DB0_CONTRACTS
+                    DB0_INVARIANT(sv_pop_front_move)
+#endif
                     *it_dest = *it_src;
                     ++it_dest;
                     ++it_src;
@@ -143,6 +149,9 @@ DB0_PACKED_BEGIN
                     }
                 } else {
                     while (count-- > 0) {
+#ifdef DB0_CONTRACTS
+                        DB0_INVARIANT(sv_pop_back_skip)
+#endif
                         --it;
                     }
                 }
@@ -172,6 +181,9 @@ DB0_PACKED_BEGIN
             data_t *it_dest = end();
             this->m_size += count;
             while (count-- > 0) {
+#ifdef DB0_CONTRACTS
+                DB0_INVARIANT(sv_bulk_push_back)
+#endif
                 *it_dest = *it;
                 ++it_dest;
                 ++it;
@@ -201,10 +213,16 @@ DB0_PACKED_BEGIN
             this->m_size += count;
             // iterate data backwards
             while (count > 0) {
+#ifdef DB0_CONTRACTS
+                DB0_INVARIANT(sv_insert_reverse)
+#endif
                 // insertion point
                 data_buf.m_end = (it_src + 1);
                 data_t *item = const_cast<data_t*>(data_buf.join(data_buf.m_begin, *it_begin, 1) + count - 1);
                 while (it_dest != item) {
+#ifdef DB0_CONTRACTS
+                    DB0_INVARIANT(sv_insert_reverse_shift)
+#endif
                     *it_dest = *it_src;
                     --it_src;
                     --it_dest;                
@@ -251,12 +269,18 @@ DB0_PACKED_BEGIN
             {
                 auto it = data_begin;
                 while (it!=data_end) {
+#ifdef DB0_CONTRACTS
+                    DB0_INVARIANT(sv_unique_fill)
+#endif
                     s_heap.insert(*it);
                     ++it;
                 }
             }
             data_t *item = const_cast<data_t*>(data_buf.m_begin);
             while (!s_heap.empty() && item != data_buf.m_end) {
+#ifdef DB0_CONTRACTS
+                DB0_INVARIANT(sv_unique_merge)
+#endif
                 item = const_cast<data_t*>(data_buf.join(item, s_heap.front(), 1));
                 if (item != data_buf.m_end) {
                     // insert / grow vector
@@ -291,6 +315,9 @@ DB0_PACKED_BEGIN
                 s_heap.pop_front();
                 ++(this->m_size);
                 while (!s_heap.empty()) {
+#ifdef DB0_CONTRACTS
+                    DB0_INVARIANT(sv_unique_append)
+#endif
                     // append if unique
                     if (data_buf.m_comp(*item,s_heap.front())) {
                         ++item;
@@ -365,6 +392,9 @@ DB0_PACKED_BEGIN
                 iterator it_src = it_dest;
                 --it_src;
                 while (it_src != item) {
+#ifdef DB0_CONTRACTS
+                    DB0_INVARIANT(sv_insert_shift)
+#endif
                     *it_dest = *it_src;
                     --it_dest;
                     --it_src;
@@ -418,6 +448,9 @@ DB0_PACKED_BEGIN
             data_t *data_end = &getData()[m_size];
             if (item_destroy_func) item_destroy_func(*dest);            
             while (src < data_end) {
+#ifdef DB0_CONTRACTS
+                DB0_INVARIANT(sv_erase_shift)
+#endif
                 *dest = *src;
                 ++dest;
                 ++src;
@@ -438,6 +471,9 @@ DB0_PACKED_BEGIN
             
             std::size_t erase_count = 0;
             while (it != it_end) {
+#ifdef DB0_CONTRACTS
+                DB0_INVARIANT(sv_bulk_erase_sorted)
+#endif
                 auto data_found_it = std::lower_bound(data_it, data_end, *it);
                 if (data_found_it == data_end) {
                     break;
@@ -471,6 +507,9 @@ DB0_PACKED_BEGIN
             
             std::size_t erase_count = 0;
             while (it != it_end) {
+#ifdef DB0_CONTRACTS
+                DB0_INVARIANT(sv_bulk_erase)
+#endif
                 if (f(*it)) {
                     if (item_destroy_func) {
                         item_destroy_func(*it);
-- 
2.43.0

